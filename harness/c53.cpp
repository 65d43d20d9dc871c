// C53: type names (lang/demangle.h), truth tests (lang/safe_bool.h) and parse errors (lang/exception.h)
#include "pbt.h"
#include <map>
#include <memory>
#include <lang/demangle.h>
#include <lang/exception.h>
#include <lang/safe_bool.h>
using namespace pbt; namespace pl = pfi::lang;
// ---- random types: their mangled and their readable names ----
struct T { std::string m, r; bool tmpl = false; };
static std::string ident(Src &s) { std::string n; n += s.ch("abcxyzABZ_"); size_t k = s.coin(1, 30) ? s.edge_len(300) : s.choose(8); for (size_t i = 0; i < k; i++) n += s.ch("abcXYZ_019"); if (n.compare(0, 2, "_Z") == 0 || n.compare(0, 8, "_GLOBAL_") == 0) n[0] = 'q'; return n; }
static std::string sized(const std::string &n) { return std::to_string(n.size()) + n; }
static T type(Src &s, int d);
static T named(Src &s, int d) {
  T t; if (s.coin(2, 3)) { std::string n = ident(s); t.m = sized(n); t.r = n; } else { size_t k = 2 + s.choose(3); t.m = "N"; for (size_t i = 0; i < k; i++) { std::string n = ident(s); t.m += sized(n); t.r += (i ? "::" : "") + n; } t.m += "E"; return t; }
  if (d > 0 && s.coin()) { t.m += "I"; t.r += "<"; size_t k = 1 + s.choose(3); for (size_t i = 0; i < k; i++) { T a = type(s, d - 1); t.m += a.m; t.r += (i ? ", " : "") + a.r; t.tmpl = a.r.back() == '>'; } t.m += "E"; t.r += t.tmpl ? " >" : ">"; } return t;
}
static T type(Src &s, int d) {
  static const std::pair<const char *, const char *> b[] = {{"i", "int"}, {"c", "char"}, {"b", "bool"}, {"d", "double"}, {"f", "float"}, {"l", "long"}, {"m", "unsigned long"}, {"j", "unsigned int"}, {"s", "short"}, {"t", "unsigned short"}, {"x", "long long"}, {"y", "unsigned long long"}, {"h", "unsigned char"}, {"a", "signed char"}, {"w", "wchar_t"}, {"e", "long double"}};
  T t; switch (d <= 0 ? s.choose(2) : s.choose(5)) {
    case 0: { auto &x = b[s.choose(sizeof b / sizeof *b)]; t.m = x.first; t.r = x.second; break; }
    case 1: return named(s, d);
    case 2: t = type(s, d - 1); t.m = "P" + t.m; t.r += "*"; break;
    case 3: { T q = s.coin() ? named(s, d - 1) : type(s, 0); t.m = "PK" + q.m; t.r = q.r + " const*"; break; }
    default: return named(s, d); } return t;
}
struct Base { virtual ~Base() {} }; namespace in { struct D1 : Base {}; template <class X, int N> struct D2 : D1 {}; struct Plain {}; enum En { e }; }
template <class X> static void stat(const char *want) { std::string g = pl::get_typename<X>(); CHECK(g == want, "the name of " << want << " is " << show(g)); X x = X(); CHECK(pl::get_static_typename(x) == want, "the static name of " << want << " is " << show(pl::get_static_typename(x))); }
static void names(Src &s, Ctx &c) {
  switch (s.choose(6)) {
    case 0: { static const std::pair<std::function<std::unique_ptr<Base>()>, const char *> k[] = {{[] { return std::unique_ptr<Base>(new Base); }, "Base"}, {[] { return std::unique_ptr<Base>(new in::D1); }, "in::D1"}, {[] { return std::unique_ptr<Base>(new in::D2<int, 3>); }, "in::D2<int, 3>"}, {[] { return std::unique_ptr<Base>(new in::D2<in::D2<char, -1>, 7>); }, "in::D2<in::D2<char, -1>, 7>"}}; auto &x = k[s.choose(4)]; auto p = x.first(); NOTE("object of type " << x.second); c.nt(); CHECK(pl::get_dynamic_typename(*p) == x.second, "the dynamic name of " << x.second << " is " << show(pl::get_dynamic_typename(*p))); CHECK(pl::get_static_typename(*p) == "Base", "the static name of a Base reference is " << show(pl::get_static_typename(*p))); c.label("objects"); break; }
    case 1: NOTE("types of the harness"); switch (s.choose(8)) { case 0: stat<int>("int"); break; case 1: stat<char const *>("char const*"); break; case 2: stat<in::Plain>("in::Plain"); break; case 3: stat<in::En>("in::En"); break; case 4: stat<int **>("int**"); break; case 5: stat<unsigned long long>("unsigned long long"); break; case 6: stat<in::D2<in::Plain *, 12>>("in::D2<in::Plain*, 12>"); break; default: stat<bool>("bool"); } break;
    case 2: { static const char *first[] = {"?", " ", "!", "=", "-", "\xff", "~"}; std::string t = s.coin(1, 8) ? "" : first[s.choose(7)]; if (!t.empty()) t += s.utf8(20, false); t = t.c_str(); NOTE("no name of a type: " << show(t)); c.nt(t.size() > 1); CHECK(pl::demangle(t) == t, show(t) << " becomes " << show(pl::demangle(t))); CHECK(pl::demangle(t.c_str()) == t, "as characters"); c.label("not mangled"); break; }
    case 3: { std::string n = ident(s); std::string m = "_Z" + sized(n), r = n + "("; size_t k = s.choose(4); if (!k) m += "v"; for (size_t i = 0; i < k; i++) { T a = type(s, 2); m += a.m; r += (i ? ", " : "") + a.r; } r += ")"; NOTE("function " << r); c.nt(); CHECK(pl::demangle(m) == r, show(m) << " becomes " << show(pl::demangle(m)) << ", not " << show(r)); c.label("functions"); break; }
    default: { T t = type(s, 4); NOTE(t.m.substr(0, 300) << " = " << t.r.substr(0, 300)); c.nt(t.m.size() > 1); CHECK(pl::demangle(t.m) == t.r, show(t.m) << " becomes " << show(pl::demangle(t.m)) << ", not " << show(t.r)); CHECK(pl::demangle(t.m.c_str()) == t.r, "as characters"); c.label("types"); } }
}
// ---- objects with a truth value ----
struct B : pl::safe_bool<B> { int v; mutable int asked = 0; explicit B(int v = 0) : v(v) {} bool bool_test() const { asked++; return v > 0; } };
static void truth(Src &s, Ctx &c) {
  B b[3]; size_t n = 1 + s.size(20); c.nt(n > 2); for (size_t i = 0; i < n; i++) { B &x = b[s.choose(3)]; switch (s.choose(3)) { case 0: x.v = (int)s.range(-2, 2); NOTE("= " << x.v); break; case 1: { B &y = b[s.choose(3)]; NOTE("copy"); x = y; break; } default: { bool w = x.v > 0; NOTE("test " << x.v); bool g = false; if (x) g = true; CHECK(g == w, "if (" << x.v << ")"); CHECK(!x == !w, "!"); CHECK((x == true) == w && (true == x) == w, "== true"); CHECK((x == false) == !w && (false == x) == !w, "== false"); CHECK((x && s.coin()) <= w, "&&"); CHECK((x ? 1 : 0) == (w ? 1 : 0), "?:"); B z(x); CHECK((z ? true : false) == w, "a copy"); } } }
}
// ---- parse errors ----
static void errors(Src &s, Ctx &c) {
  std::string f = s.coin(1, 4) ? "" : s.coin() ? s.utf8(20, false) : s.bytes(10), m = s.coin() ? s.utf8(30, false) : s.bytes(20); int l = (int)s.i64(), p = (int)s.i64(); NOTE(show(f) << " " << l << " " << p << " " << show(m)); c.nt(!f.empty() && !m.empty());
  auto judge = [&](const pl::parse_error &e, const char *how) { CHECK(e.filename() == f && e.lineno() == l && e.pos() == p && e.msg() == m, how << ": holds " << show(e.filename()) << " " << e.lineno() << " " << e.pos() << " " << show(e.msg())); std::string w = f + ":" + std::to_string(l) + ":" + std::to_string(p) + " " + m; CHECK(std::string(e.what()) == w.c_str(), how << ": says " << show(e.what())); };
  pl::parse_error e(f, l, p, m); judge(e, "made"); pl::parse_error d; CHECK(d.filename().empty() && d.lineno() == 0 && d.pos() == 0 && d.msg().empty() && std::string(d.what()) == ":0:0 ", "without arguments it says " << show(d.what())); if (s.coin(1, 3)) { pl::parse_error o2(m, p, l, f); const char *w1 = e.what(); std::string keep = w1; const char *w2 = o2.what(); CHECK(keep == w1 && w1 == e.what() && o2.what() == w2, "the message of an error changes when another says its own"); } d = e; judge(d, "assigned"); try { throw e; } catch (const std::exception &x) { auto q = dynamic_cast<const pl::parse_error *>(&x); CHECK(q, "is another exception"); judge(*q, "thrown"); }
  try { throw pl::end_of_data(m); } catch (const std::runtime_error &x) { CHECK(std::string(x.what()) == m.c_str(), "end_of_data says " << show(x.what())); }
}
Suite pbt::suite() {
  Suite u; u.property = "C53";
  u.rule = "Mangled names of generated types (built-in, named, nested, templates, pointers, constants) and functions with the readable names that belong to them, text that is no mangled name, static and dynamic types; histories of assignments and tests of objects with a truth value, in every form of test; parse errors with any file name, line, position and message, made, assigned and thrown. Non-trivial: a name of more than one character, a history of more than two steps, an error with file and message.";
  u.props = {{"names", names, 60000, 1000000, false}, {"truth", truth, 30000, 300000, false}, {"errors", errors, 30000, 300000, false}};
  u.assumptions = {"the readable form of a name is the one the platform's C++ ABI library writes"};
  return u;
}
