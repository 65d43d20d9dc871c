#include "ser.h"
#include <unistd.h>
using namespace pbt;
// one stored item, type-erased
struct Item { virtual ~Item() {} virtual void store(sz::binary_oarchive &) = 0; virtual void load_check(sz::binary_iarchive &, Src &) = 0; virtual std::string bytes() = 0; virtual bool ordered() { return true; } const char *name; };
template <class T, bool ORD = true> struct Of : Item {
  T v; explicit Of(Src &s, const char *n) : v() { ser::gen(s, v); name = n; }
  void store(sz::binary_oarchive &a) override { a << v; }
  void load_check(sz::binary_iarchive &a, Src &s) override { T w = T(); if (s.coin()) ser::gen(s, w); a >> w; CHECK((bool)a, "loading " << name << " failed"); CHECK(w == v, name << " loaded as another value"); }
  std::string bytes() override { std::string o; ser::enc(o, v); return o; }
  bool ordered() override { return ORD; }
};
struct LD : Item { long double v; explicit LD(Src &s) { v = (long double)s.finite() * 3; name = "long double"; } void store(sz::binary_oarchive &a) override { a << v; } void load_check(sz::binary_iarchive &a, Src &) override { long double w = 0; a >> w; CHECK(w == v, "long double loaded as another value"); } std::string bytes() override { return std::string((char *)&v, sizeof v); } bool ordered() override { return false; } };
struct Stm : Item { std::string v; explicit Stm(Src &s) { v = s.coin() ? s.over("\xff\x01 \xff", 20) : s.coin(1, 8) ? s.blob(s.edge_len(40000), s.coin() ? "\xff\x01\n" : nullptr) : s.bytes(600); name = "stream"; if (s.coin(1, 3)) { size_t p = s.choose(v.size() + 1); v.insert(p, std::string("\xff\x00\xff", 3)); } }
  void store(sz::binary_oarchive &a) override { std::stringstream ss(v); sz::stream<> st(ss); a << st; }
  void load_check(sz::binary_iarchive &a, Src &s) override { if (s.coin(1, 20)) { own(a, s.coin()); return; } std::stringstream ss; sz::stream<> st(ss); a >> st; CHECK((bool)a, "loading stream failed"); CHECK(ss.str() == v, "stream loaded as " << show(ss.str())); std::string r((std::istreambuf_iterator<char>(ss)), std::istreambuf_iterator<char>()); CHECK(r == v, "the loaded stream is not positioned at its start"); }
  struct Dir { const char *operator()() const { return tmpdir(); } static const char *&tmpdir() { static const char *d; return d; } };
  struct At { std::string d; const char *operator()() const { return d.c_str(); } };
  void own(sz::binary_iarchive &a, bool given) { char d[] = "/tmp/pbtserXXXXXX"; CHECK(mkdtemp(d), "no scratch directory"); Dir::tmpdir() = d; std::string r, nm, dd = d; if (given) { sz::stream<At> st((At{dd})); nm = st.name(); a >> st; r.assign((std::istreambuf_iterator<char>(st.get())), std::istreambuf_iterator<char>()); } else { sz::stream<Dir> st; nm = st.name(); a >> st; r.assign((std::istreambuf_iterator<char>(st.get())), std::istreambuf_iterator<char>()); } bool left = access(nm.c_str(), F_OK) == 0; unlink(nm.c_str()); rmdir(d);
    CHECK(nm.compare(0, dd.size(), dd) == 0, "the stream's file is not in the directory asked for"); CHECK((bool)a, "loading a stream failed"); CHECK(r == v, "stream loaded into a temporary file as " << show(r)); CHECK(!left, "the temporary file of a stream is left behind"); }
  std::string bytes() override { std::string o; for (char ch : v) { o += ch; if ((unsigned char)ch == 0xff) o += '\xff'; } o += std::string("\xff\x00", 2); return o; } };
#define K(T, n) (new Of<T>(s, n))
static Item *gen_item(Src &s) {
  ser::big() = s.coin(1, 6);
  typedef std::map<std::string, std::vector<std::pair<int, std::string>>> M1; typedef pfi::data::unordered_map<std::string, Rec> U1; typedef pfi::data::unordered_set<std::string> U2; typedef pfi::data::unordered_map<int, std::vector<pfi::data::unordered_set<int>>> U3;
  typedef std::vector<std::vector<std::vector<unsigned short>>> V3; typedef std::deque<std::list<std::string>> DL; typedef std::set<std::pair<long, std::string>> SP; typedef std::map<int, std::map<int, Rec>> MM;
  switch (s.choose(32)) {
    case 0: return K(bool, "bool"); case 1: return K(char, "char"); case 2: return K(signed char, "signed char"); case 3: return K(unsigned char, "unsigned char"); case 4: return K(short, "short"); case 5: return K(unsigned short, "unsigned short");
    case 6: return K(int, "int"); case 7: return K(unsigned, "unsigned"); case 8: return K(long, "long"); case 9: return K(unsigned long, "unsigned long"); case 10: return K(long long, "long long"); case 11: return K(unsigned long long, "unsigned long long");
    case 12: return K(float, "float"); case 13: return K(double, "double"); case 14: return new LD(s); case 15: return K(std::string, "string"); case 16: return K(u32s, "code-point string"); case 17: return K(Rec, "structure"); case 18: return K(Rec2, "nested structure");
    case 19: return K(M1, "map<string,vector<pair>>"); case 20: return new Of<U1, false>(s, "unordered_map"); case 21: return new Of<U2, false>(s, "unordered_set"); case 22: return new Of<U3, false>(s, "unordered_map<vector<unordered_set>>"); case 23: return K(V3, "vector^3"); case 24: return K(DL, "deque<list<string>>");
    case 25: return K(SP, "set<pair>"); case 26: return K(MM, "map<map>"); case 27: return K(A3<std::string>, "array<string>"); case 28: return K(std::vector<Rec2>, "vector<structure>"); case 29: return K(std::vector<double>, "vector<double>"); case 30: return K(std::list<Rec>, "list<structure>"); default: return new Stm(s);
  }
}
static void sequence(Src &s, Ctx &c) {
  size_t n = 1 + s.size(6); std::vector<std::unique_ptr<Item>> v; std::string want; bool exact = true; std::stringstream ss; sz::binary_oarchive oa(ss);
  for (size_t i = 0; i < n; i++) { v.emplace_back(gen_item(s)); std::string b = v[i]->bytes(); NOTE(v[i]->name << " " << show(b, 60)); v[i]->store(oa); size_t at = want.size(); want += b; c.label(v[i]->name);
    std::string got = ss.str(); CHECK(got.size() == want.size(), v[i]->name << " stored as " << got.size() - at << " bytes instead of " << b.size());
    if (v[i]->ordered()) CHECK(got.compare(at, std::string::npos, b) == 0, v[i]->name << " stored as " << show(got.substr(at)) << " instead of " << show(b)); else exact = false; }
  c.nt(want.size() > 8); CHECK((bool)oa, "the archive reports failure"); (void)exact;
  std::string tail = s.bytes(5); std::stringstream in(ss.str() + tail); sz::binary_iarchive ia(in);
  for (size_t i = 0; i < n; i++) v[i]->load_check(ia, s);
  std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECK(rest == tail, "loading consumed " << (long)want.size() + (long)tail.size() - (long)rest.size() << " bytes of " << want.size());
}
// the layout does not depend on the container: a sequence stored from one container loads into another
static void containers(Src &s, Ctx &c) {
  std::vector<std::pair<std::string, int>> v; ser::big() = s.coin(1, 3); ser::gen(s, v); NOTE(v.size() << " elements"); c.nt(v.size() > 1);
  std::stringstream ss; { sz::binary_oarchive oa(ss); oa << v; } std::string b = ss.str();
  { std::stringstream i(b); sz::binary_iarchive ia(i); std::list<std::pair<std::string, int>> l; ia >> l; CHECK((std::vector<std::pair<std::string, int>>(l.begin(), l.end()) == v), "list differs"); }
  { std::stringstream i(b); sz::binary_iarchive ia(i); std::deque<std::pair<std::string, int>> l(3); ia >> l; CHECK((std::vector<std::pair<std::string, int>>(l.begin(), l.end()) == v), "deque differs"); }
  { std::stringstream i(b); sz::binary_iarchive ia(i); std::map<std::string, int> l, w; ia >> l; for (auto &x : v) w.insert(x); CHECK(l == w, "map differs"); }
  { std::stringstream i(b); sz::binary_iarchive ia(i); std::set<std::pair<std::string, int>> l, w(v.begin(), v.end()); ia >> l; CHECK(l == w, "set differs"); }
  { std::stringstream i(b); sz::binary_iarchive ia(i); pfi::data::unordered_map<std::string, int> l; std::map<std::string, int> w; ia >> l; for (auto &x : v) w.insert(x); CHECK((std::map<std::string, int>(l.begin(), l.end()) == w), "unordered_map differs"); }
  { std::string o; ser::enc(o, v); CHECK(o == b, "stored bytes are not the documented layout"); }
}
// a member that is stored only when present: a fresh element does not inherit it from the one before
struct Maybe { bool has = false; std::string s; int k = 7; template <class Ar> void serialize(Ar &ar) { ar & has; if (has) ar & s & k; } bool operator==(const Maybe &o) const { return has == o.has && s == o.s && k == o.k; } };
template <class C> static void maybes_t(const std::vector<Maybe> &v, const char *what) { C a(v.begin(), v.end()), b; std::stringstream ss; { sz::binary_oarchive oa(ss); oa << a; } sz::binary_iarchive ia(ss); ia >> b; CHECK((bool)ia && a == b, what << " loaded as another value"); }
struct Two { std::vector<Maybe> a; std::map<int, Maybe> m; template <class Ar> void serialize(Ar &ar) { ar & a & m; } bool operator==(const Two &o) const { return a == o.a && m == o.m; } };
static void maybes(Src &s, Ctx &c) {
  std::vector<Maybe> v(s.size(8)); size_t has = 0; for (auto &x : v) if ((x.has = s.coin())) { has++; x.s = s.bytes(6); x.k = (int)s.i64(); } NOTE(v.size() << " elements, " << has << " present"); c.nt(has && has < v.size());
  switch (s.choose(4)) { case 0: maybes_t<std::vector<Maybe>>(v, "vector"); break; case 1: maybes_t<std::deque<Maybe>>(v, "deque"); break; case 2: maybes_t<std::list<Maybe>>(v, "list"); break;
    default: { std::vector<Two> w(1 + s.choose(3)), g; for (auto &x : w) { x.a = v; for (auto &y : v) if (s.coin()) x.m[(int)s.choose(6)] = y; if (s.coin() && !v.empty()) v.pop_back(); } std::stringstream ss; { sz::binary_oarchive oa(ss); oa << w; } sz::binary_iarchive ia(ss); ia >> g; CHECK((bool)ia && g == w, "nested elements loaded as another value"); pfi::data::unordered_map<std::string, Maybe> u, h; for (auto &x : v) u[s.bytes(2)] = x; std::stringstream st; { sz::binary_oarchive oa(st); oa << u; } sz::binary_iarchive ib(st); ib >> h; CHECK((bool)ib && h.size() == u.size(), "unordered_map of another size"); for (auto &x : u) CHECK(h.count(x.first) && h[x.first] == x.second, "unordered_map loaded as another value"); } }
}
// strings and containers of more than 2^16 elements
template <class C> static void huge_t(const C &v, const char *what) { std::stringstream ss; { sz::binary_oarchive oa(ss); C x = v; oa << x; oa << (char &)*std::string("!").begin(); } sz::binary_iarchive ia(ss); C b; ia >> b; char e = 0; ia >> e; CHECK((bool)ia && e == '!', what << " of " << v.size() << " elements: loading fails or stops elsewhere"); CHECK(b == v, what << " of " << v.size() << " elements loaded as another value of " << b.size()); }
static void huge(Src &s, Ctx &c) {
  size_t n = s.pick<size_t>({65535, 65536, 65537, 70001, 131071, 131072, 131073, 200000, 262144}) + s.choose(40); unsigned x = (unsigned)s.choose(1u << 20); auto r = [&] { return (x = x * 1664525u + 1013904223u) >> 9; }; int k = (int)s.choose(8); NOTE(n << " elements, kind " << k); c.nt();
  switch (k) { case 0: case 1: { std::string v(n, 0); for (auto &q : v) q = (char)r(); huge_t(v, "string"); break; } case 2: { std::vector<int> v(n); for (auto &q : v) q = (int)r(); huge_t(v, "vector"); break; } case 3: { std::deque<unsigned char> v(n); for (auto &q : v) q = (unsigned char)r(); huge_t(v, "deque"); break; } case 4: { std::list<char> v(n); for (auto &q : v) q = (char)r(); huge_t(v, "list"); break; } case 5: { std::set<int> v; for (size_t i = 0; i < n; i++) v.insert((int)(i * 3 + (r() & 1))); huge_t(v, "set"); break; } case 6: { std::map<int, char> v; for (size_t i = 0; i < n; i++) v[(int)i - 1000] = (char)r(); huge_t(v, "map"); break; } default: { pfi::data::unordered_set<int> v; for (size_t i = 0; i < n; i++) v.insert((int)(i * 7)); huge_t(v, "unordered_set"); } }
}
Suite pbt::suite() {
  Suite u; u.property = "C08";
  u.rule = "random sequences of 1-7 values of 32 types (all arithmetic types, byte and code-point strings, pairs, arrays, all containers, nested and user structures, streams; strings to 70000 bytes and containers to 2100 elements around powers of two, some beyond 2^16 elements; elements with members stored only when present) stored and loaded into fresh or used objects, bytes compared with an independent encoder of the layout, trailing bytes untouched; cross-container loading; non-trivial = more than 8 bytes / 2+ elements";
  u.props = {{"sequence", sequence, 100000, 2500000, true}, {"containers", containers, 20000, 400000, false}, {"maybes", maybes, 20000, 300000, false}, {"huge", huge, 60, 2000, false}};
  u.assumptions = {"little-endian x86-64 host; long double padding bytes are not compared"};
  return u;
}
