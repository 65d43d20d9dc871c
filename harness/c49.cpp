// C49: the run-time description of a type is the type, and suffices to read its archives
#include "pbt.h"
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include <data/serialization.h>
#include <data/serialization/reflect.h>
#include <network/rpc/reflect.h>
#include <data/serialization/iostream.h>
using namespace pbt; namespace ser = pfi::data::serialization; using pfi::lang::shared_ptr; using pfi::lang::function; typedef shared_ptr<ser::type_rep> Rep;
// ---- the expected description and the expected value, built from the C++ types alone ----
struct Ty { std::string text; std::vector<std::shared_ptr<Ty>> kids; }; typedef std::shared_ptr<Ty> T;
static T leaf(const std::string &s) { T t(new Ty); t->text = s; return t; }
template <class X> struct D;   // text, value: description and a canonical text of a value
static std::string hex(const std::string &s) { std::string r = "\""; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r + "\""; }
static std::string flt(double d) { char b[40]; if (d != d) return "nan"; snprintf(b, 40, "%a", d); return b; }
#define INTD(t) template <> struct D<t> { static T ty() { return leaf(std::string(std::is_signed<t>::value ? "int(" : "uint(") + std::to_string(sizeof(t)) + ")"); } static std::string val(const t &v) { return std::to_string(v); } static t gen(Src &s) { return (t)s.i64(); } };
INTD(signed char) INTD(unsigned char) INTD(short) INTD(unsigned short) INTD(int) INTD(unsigned int) INTD(long) INTD(unsigned long) INTD(long long) INTD(unsigned long long)
template <> struct D<bool> { static T ty() { return leaf("bool"); } static std::string val(bool v) { return v ? "true" : "false"; } static bool gen(Src &s) { return s.coin(); } };
template <> struct D<char> { static T ty() { return leaf("char"); } static std::string val(char v) { return "'" + std::to_string((int)(unsigned char)v) + "'"; } static char gen(Src &s) { return (char)s.choose(256); } };
template <> struct D<double> { static T ty() { return leaf("float"); } static std::string val(double v) { return flt(v); } static double gen(Src &s) { return s.coin(1, 10) ? s.pick<double>({INFINITY, -INFINITY, -0.0}) : s.finite(); } };
template <> struct D<float> { static T ty() { return leaf("float"); } static std::string val(float) { return "?"; } static float gen(Src &) { return 1; } };
template <> struct D<long double> { static T ty() { return leaf("float"); } static std::string val(long double) { return "?"; } static long double gen(Src &) { return 1; } };
template <> struct D<std::string> { static T ty() { return leaf("string"); } static std::string val(const std::string &v) { return hex(v); } static std::string gen(Src &s) { return s.bytes(s.choose(12)); } };
template <class X> struct D<std::vector<X>> { static T ty() { T t = leaf(""), e = D<X>::ty(); t->text = "array<" + e->text + ">"; t->kids = {e}; return t; } static std::string val(const std::vector<X> &v) { std::string r = "["; for (const X &x : v) r += D<X>::val(x) + ","; return r + "]"; } static std::vector<X> gen(Src &s) { std::vector<X> v; size_t n = s.size(5); for (size_t i = 0; i < n; i++) v.push_back(D<X>::gen(s)); return v; } };
template <class K, class V> struct D<std::map<K, V>> { static T ty() { T t = leaf(""), a = D<K>::ty(), b = D<V>::ty(); t->text = "map<" + a->text + "," + b->text + ">"; t->kids = {a, b}; return t; } static std::string val(const std::map<K, V> &m) { std::string r = "{"; for (auto &x : m) r += D<K>::val(x.first) + "=" + D<V>::val(x.second) + ","; return r + "}"; } static std::map<K, V> gen(Src &s) { std::map<K, V> m; size_t n = s.size(5); for (size_t i = 0; i < n; i++) { K k = D<K>::gen(s); m[k] = D<V>::gen(s); } return m; } };
// classes: each has members(f) calling f(name, member), name ""= not named
struct Col { std::vector<std::pair<std::string, T>> m; template <class X> void operator()(const char *n, const X &) { m.push_back({n, D<X>::ty()}); } };
struct Val { std::string r; template <class X> void operator()(const char *n, const X &x) { r += std::string(n) + ":" + D<X>::val(x) + ","; } };
struct Gen { Src &s; template <class X> void operator()(const char *, X &x) { x = D<X>::gen(s); } };
template <class C> struct DC {
  static T ty() { Col c; C x; x.members(c); T t = leaf(""); t->text = std::string("class(") + C::cname() + "){"; for (size_t i = 0; i < c.m.size(); i++) { if (i) t->text += ","; t->text += c.m[i].second->text; if (c.m[i].first.size()) t->text += ":" + c.m[i].first; t->kids.push_back(c.m[i].second); } t->text += "}"; return t; }
  static std::string val(const C &c) { Val v; const_cast<C &>(c).members(v); return std::string("<") + C::cname() + " " + v.r + ">"; } static C gen(Src &s) { C c; Gen g{s}; c.members(g); return c; } };
struct Point { int x = 0, y = 0; template <class F> void members(F &f) { f("x", x); f("y", y); } static const char *cname() { return "Point"; } template <class A> void serialize(A &ar) { ar & NAME(Point) & MEMBER(x) & MEMBER(y); } };
struct Empty { template <class F> void members(F &) {} static const char *cname() { return "Empty"; } template <class A> void serialize(A &ar) { ar & NAME(Empty); } };
struct Anon { short a = 0; std::string b; unsigned char c = 0; template <class F> void members(F &f) { f("", a); f("", b); f("", c); } static const char *cname() { return ""; } template <class A> void serialize(A &ar) { ar & a & b & c; } };
template <> struct D<Point> : DC<Point> {}; template <> struct D<Empty> : DC<Empty> {}; template <> struct D<Anon> : DC<Anon> {};
struct Half { bool named = false; Point plain; template <class F> void members(F &f) { f("named", named); f("", plain); } static const char *cname() { return "Half"; } template <class A> void serialize(A &ar) { ar & MEMBER(named) & plain & NAME(Half); } };
template <> struct D<Half> : DC<Half> {};
struct Deep { std::vector<Point> points; std::map<std::string, std::vector<Half>> halves; Anon anon; Empty none; double weight = 0; char mark = 0; template <class F> void members(F &f) { f("points", points); f("other name", halves); f("anon", anon); f("none", none); f("weight", weight); f("mark", mark); } static const char *cname() { return "Deep"; } template <class A> void serialize(A &ar) { ar & NAME(Deep) & MEMBER(points) & NAMED_MEMBER("other name", halves) & MEMBER(anon) & MEMBER(none) & MEMBER(weight) & MEMBER(mark); } };
template <> struct D<Deep> : DC<Deep> {};
struct Outer { Deep deep; std::vector<std::vector<Deep>> table; std::map<int, Deep> index; long long count = 0; template <class F> void members(F &f) { f("", deep); f("table", table); f("index", index); f("count", count); } static const char *cname() { return "Outer"; } template <class A> void serialize(A &ar) { ar & NAME(Outer) & deep & MEMBER(table) & MEMBER(index) & MEMBER(count); } };
template <> struct D<Outer> : DC<Outer> {};
// ---- reading an archive with nothing but the description ----
struct Reader { std::string d; size_t p = 0; std::string take(size_t n) { if (n > d.size() - p) throw Fail("the archive ends before the described value does"); p += n; return d.substr(p - n, n); } uint64_t num(size_t n) { std::string b = take(n); uint64_t r = 0; for (size_t i = n; i-- > 0;) r = r << 8 | (unsigned char)b[i]; return r; } };
static std::string decode(ser::type_rep *t, Reader &r) {
  if (dynamic_cast<ser::bool_type *>(t)) { uint64_t b = r.num(1); return b == 1 ? "true" : b == 0 ? "false" : "bool " + std::to_string(b); }
  if (auto *n = dynamic_cast<ser::int_type *>(t)) { if (n->size() < 1 || n->size() > 8) throw Fail("an integer of " + std::to_string(n->size()) + " bytes is described"); uint64_t v = r.num(n->size()); if (!n->sign()) return std::to_string(v); int sh = 64 - 8 * n->size(); return std::to_string((int64_t)(v << sh) >> sh); }
  if (dynamic_cast<ser::char_type *>(t)) return "'" + std::to_string(r.num(1)) + "'";
  if (dynamic_cast<ser::float_type *>(t)) { uint64_t b = r.num(8); double d; memcpy(&d, &b, 8); return flt(d); }
  if (dynamic_cast<ser::string_type *>(t)) { size_t n = r.num(4); return hex(r.take(n)); }
  if (auto *a = dynamic_cast<ser::array_type *>(t)) { size_t n = r.num(4); std::string s = "["; for (size_t i = 0; i < n; i++) s += decode(a->elem_type().get(), r) + ","; return s + "]"; }
  if (auto *m = dynamic_cast<ser::map_type *>(t)) { size_t n = r.num(4); std::string s = "{"; for (size_t i = 0; i < n; i++) { s += decode(m->key_type().get(), r) + "="; s += decode(m->value_type().get(), r) + ","; } return s + "}"; }
  if (auto *k = dynamic_cast<ser::class_type *>(t)) { std::string s = "<" + k->get_name() + " "; for (auto &x : *k) { s += x.first + ":"; s += decode(x.second.get(), r) + ","; } return s + ">"; }
  if (dynamic_cast<ser::stream_type *>(t)) { std::string v; for (;;) { std::string b = r.take(1); if (b == "\xff") { b = r.take(1); if (b == std::string(1, '\0')) return "~" + hex(v); } v += b; } }
  throw Fail("the description has a node of an unknown kind");
}
static std::string printed(const Rep &r) { std::ostringstream o; r->print(o); return o.str(); }
static void preorder(const T &t, std::vector<std::string> &v) { v.push_back(t->text); for (auto &k : t->kids) preorder(k, v); }
static void described(const Rep &r, const T &t) {
  CHECK(r, "no description"); CHECK(printed(r) == t->text, "described as " << printed(r) << ", the type is " << t->text); std::vector<std::string> want, got; preorder(t, want); std::set<ser::type_rep *> nodes; bool twice = false; r->traverse([&](ser::type_rep *p) { std::ostringstream o; p->print(o); got.push_back(o.str()); twice |= !nodes.insert(p).second; });
  CHECK(got == want, "traversing " << t->text << " visits " << got.size() << " nodes in another order or number than the " << want.size() << " of the type"); CHECK(!twice, "traversing visits a node twice");
}
struct Entry { std::function<T()> ty; std::function<Rep()> rep; std::function<std::string(Src &, std::string &)> value; };
template <class X> static Entry entry() { return {[] { return D<X>::ty(); }, [] { return ser::get_type<X>(); }, [](Src &s, std::string &bytes) { X x = D<X>::gen(s); std::ostringstream o; { ser::binary_oarchive ar(o); ar << x; } bytes = o.str(); return D<X>::val(x); }}; }
typedef std::vector<std::map<std::string, std::vector<unsigned short>>> Mix; typedef std::map<std::string, std::map<int, std::string>> Mm; typedef std::map<char, double> Cd; typedef std::map<short, Point> Sp;
static std::vector<Entry> &all() { static std::vector<Entry> v = {entry<bool>(), entry<char>(), entry<signed char>(), entry<unsigned char>(), entry<short>(), entry<unsigned short>(), entry<int>(), entry<unsigned int>(), entry<long>(), entry<unsigned long>(), entry<long long>(), entry<unsigned long long>(), entry<double>(), entry<std::string>(), entry<std::vector<int>>(), entry<std::vector<std::string>>(), entry<std::vector<std::vector<unsigned char>>>(), entry<std::map<int, std::string>>(), entry<Mm>(), entry<Cd>(), entry<Sp>(), entry<Mix>(), entry<Point>(), entry<Empty>(), entry<Anon>(), entry<Half>(), entry<Deep>(), entry<Outer>(), entry<std::vector<Deep>>(), entry<std::vector<char>>()}; return v; }
static void decoded(Src &s, Ctx &c) {
  auto &e = s.pick(all()); T t = e.ty(); NOTE(t->text); Rep r = e.rep(); described(r, t); size_t n = 1 + s.choose(3); c.nt(!t->kids.empty());
  for (size_t i = 0; i < n; i++) { std::string bytes, want = e.value(s, bytes); NOTE(want.substr(0, 300)); c.label("bytes", bytes.size()); Reader rd{bytes}; std::string got = decode(r.get(), rd); CHECK(got == want, "the archive of " << want << " reads as " << got << " by the description " << t->text); CHECK(rd.p == bytes.size(), "the archive has " << bytes.size() - rd.p << " bytes more than the description " << t->text << " tells"); }
}
// ---- method descriptions ----
template <class R, class... A> static void method(const char *what, function<R(A...)> f) { auto p = pfi::network::rpc::extract(f); described(p.first, D<R>::ty()); std::vector<T> want = {D<A>::ty()...}; CHECK(p.second.size() == want.size(), what << " is described with " << p.second.size() << " arguments"); for (size_t i = 0; i < want.size(); i++) described(p.second[i], want[i]); }
using namespace pfi::network::rpc; typedef std::map<std::string, int> Si; typedef std::vector<Point> Vp;
REFLECT_RPC_PROC(add, int(int, short)); REFLECT_RPC_PROC(find, Vp(std::string, Deep)); REFLECT_RPC_PROC(nothing, bool()); REFLECT_RPC_GEN(7, service, add, find, nothing)
// a class with a stream in it; the description is taken from an object whose stream has a file of its own
struct Here { const char *operator()() const { const char *d = getenv("PBT_TMP"); return d ? d : "/tmp"; } };
struct Holder { ser::stream<Here> body; std::string head; short n = 0; Holder() {} explicit Holder(std::iostream &i) : body(i) {} template <class A> void serialize(A &ar) { ar & NAME(Holder) & MEMBER(head) & MEMBER(body) & MEMBER(n); } };
static void streams(Src &s, Ctx &c) {
  static Rep r = ser::get_type<Holder>(); T t = leaf(""), b = leaf("stream"), n = D<short>::ty(), h = leaf("string"); t->text = "class(Holder){string:head,stream:body," + n->text + ":n}"; t->kids = {h, b, n}; described(r, t); std::string v = s.coin() ? s.over("\xff\x01 \xfe", 20) : s.bytes(40); v.append(s.choose(2), '\0'); c.nt(!v.empty()); NOTE(show(v)); c.label("stream");
  std::stringstream in(v); Holder x(in); x.head = s.bytes(6); x.n = (short)s.i64(); std::ostringstream o; { ser::binary_oarchive ar(o); ar << x; } Reader rd{o.str()}; std::string got = decode(r.get(), rd), want = "<Holder head:" + hex(x.head) + ",body:~" + hex(v) + ",n:" + std::to_string(x.n) + ",>"; CHECK(got == want, "the archive of " << want << " reads as " << got << " by its description"); CHECK(rd.p == rd.d.size(), "the archive has more than the description tells");
}
static void methods(Src &s, Ctx &c) {
  c.nt(true); int k = (int)s.choose(13); NOTE("signature " << k);
  switch (k) {
    case 0: method("a function of no argument", function<int()>()); break; case 1: method("a function of 1 argument", function<std::string(Point)>()); break; case 2: method("a function of 2 arguments", function<bool(int, std::string)>()); break; case 3: method("a function of 3 arguments", function<Deep(Outer, short, Vp)>()); break; case 4: method("a function of 4 arguments", function<Vp(char, short, int, long)>()); break;
    case 5: method("a function of 5 arguments", function<Si(unsigned char, unsigned short, unsigned int, unsigned long, double)>()); break; case 6: method("a function of 6 arguments", function<int(Point, Anon, Half, Deep, Empty, bool)>()); break; case 7: method("a function of 7 arguments", function<double(bool, char, short, int, long, float, std::string)>()); break; case 8: method("a function of 8 arguments", function<char(std::string, int, Point, Si, Vp, bool, unsigned char, long double)>()); break; case 9: method("a function of 9 arguments", function<short(bool, char, short, int, unsigned int, unsigned short, unsigned char, std::string, Point)>()); break;
    case 10: { described(ser::get_type<float>(), D<float>::ty()); described(ser::get_type<long double>(), D<long double>::ty()); described(ser::get_type<std::vector<float>>(), D<std::vector<float>>::ty()); break; }
    case 11: { service_reflect r; CHECK(r.get_name() == "service" && r.get_version() == 7, "the service is " << r.get_name() << " version " << r.get_version()); auto &m = r.members(); CHECK(m.size() == 3 && m.count("add") && m.count("find") && m.count("nothing"), "the service has " << m.size() << " methods"); described(m["add"].first, D<int>::ty()); CHECK(m["add"].second.size() == 2 && m["find"].second.size() == 2 && m["nothing"].second.empty(), "argument counts"); described(m["add"].second[1], D<short>::ty()); described(m["find"].first, D<Vp>::ty()); described(m["find"].second[0], D<std::string>::ty()); described(m["find"].second[1], D<Deep>::ty()); break; }
    default: {   // a description built by hand
      ser::class_type k; std::string n = s.over("ab", 4); k.set_name(n); size_t m = s.size(6); std::string want = "class(" + n + "){"; for (size_t i = 0; i < m; i++) { auto &e = s.pick(all()); std::string mn = s.over("xy", 2); Rep r = e.rep(); k.add(mn, r); want += (i ? "," : "") + printed(r) + (mn.empty() ? "" : ":" + mn); } want += "}"; std::ostringstream o; k.print(o); CHECK(o.str() == want, "printed as " << o.str() << " instead of " << want); CHECK(k.get_name() == n && (size_t)(k.end() - k.begin()) == m, "name or number of members"); } }
}
Suite pbt::suite() {
  Suite u; u.property = "C49";
  u.rule = "A type from a collection of 30 (scalars, strings, nested vectors and maps, classes with named, renamed, unnamed and nested members) and values of it: the description's printed form and its traversal are compared with the type, and the archive of every value is read with the description alone and compared with the value (also a class with a stream in it); method descriptions for 0 to 9 arguments. Non-trivial: a type with parts.";
  u.props = {{"decoded", decoded, 20000, 500000, true}, {"methods", methods, 2000, 20000, false}, {"streams", streams, 2000, 50000, true}};
  u.assumptions = {"a description does not tell the width of a floating-point number; values are checked for double"};
  return u;
}
