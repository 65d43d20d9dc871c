#include "jmodel.h"
#include <data/optional.h>
#include <data/unordered_map.h>
#include <text/json/serialization.h>
using namespace pbt;
using namespace pfi::text::json;
using pfi::data::optional;

struct Inner {
  int a; std::string b; optional<double> c; std::vector<int> d;
  template <class Ar> void serialize(Ar &ar) { ar & MEMBER(a) & MEMBER(b) & MEMBER(c) & MEMBER(d); }
  bool operator==(const Inner &r) const { return a == r.a && b == r.b && c == r.c && d == r.d; }
};
struct Outer {
  bool f; int i; long l; long long ll; double x; float y; std::string s;
  std::vector<Inner> v; std::map<std::string, Inner> m; std::map<std::string, std::vector<std::string>> mv;
  optional<Inner> oi; optional<std::string> os; optional<std::vector<int>> ov;
  pfi::data::unordered_map<std::string, long> um; std::vector<std::vector<double>> vv; std::vector<optional<int>> vo;
  template <class Ar> void serialize(Ar &ar) {
    ar & MEMBER(f) & MEMBER(i) & MEMBER(l) & MEMBER(ll) & NAMED_MEMBER("x value", x) & MEMBER(y) & NAMED_MEMBER("\xe6\x96\x87", s) & MEMBER(v) & MEMBER(m) & MEMBER(mv) & MEMBER(oi) & MEMBER(os) & MEMBER(ov) & MEMBER(um) & MEMBER(vv) & MEMBER(vo);
  }
  bool operator==(const Outer &r) const { return f == r.f && i == r.i && l == r.l && ll == r.ll && x == r.x && y == r.y && s == r.s && v == r.v && m == r.m && mv == r.mv && oi == r.oi && os == r.os && ov == r.ov && um == r.um && vv == r.vv && vo == r.vo; }
};
static bool g_text;    // floats that survive 12 digits
// ---- typed generators ----
static void gen(Src &s, bool &v) { v = s.coin(); }
static void gen(Src &s, int &v) { v = (int)s.i64(); }
static void gen(Src &s, long &v) { v = s.i64(); }
static void gen(Src &s, long long &v) { v = s.i64(); }
static void gen(Src &s, double &v) { v = g_text ? (double)s.range(-100000, 100000) / 16 : s.finite(); }
static void gen(Src &s, float &v) { v = (float)s.range(-100000, 100000) / 16; if (!g_text && s.coin()) { double d = s.finite(); if (std::fabs(d) < 3e38) v = (float)d; } }
static void gen(Src &s, std::string &v) { v = s.coin(1, 100) ? s.blob(s.edge_len(3000), "ab\n\"") : s.utf8(8); }
static bool nofloat(const JV &v) { if (v.k == JV::Float) return false; for (auto &x : v.a) if (!nofloat(x)) return false; for (auto &x : v.o) if (!nofloat(x.second)) return false; return true; }
struct Raw { PJ j; bool operator==(const Raw &r) const { return equals(j, r.j, false); } template <class Ar> void serialize(Ar &ar) { ar & MEMBER(j); } };   // a member that is JSON itself
static void gen(Src &s, Raw &v) { v.j = to_pfi(jgen(s, 2, false)); }
template <class T> static void gen(Src &s, optional<T> &v);
template <class T> static void gen(Src &s, std::vector<T> &v);
template <class T> static void gen(Src &s, std::map<std::string, T> &v);
template <class T> static void gen(Src &s, pfi::data::unordered_map<std::string, T> &v);
static void gen(Src &s, Inner &v) { gen(s, v.a); gen(s, v.b); gen(s, v.c); gen(s, v.d); }
static void gen(Src &s, Outer &v) { gen(s, v.f); gen(s, v.i); gen(s, v.l); gen(s, v.ll); gen(s, v.x); gen(s, v.y); gen(s, v.s); gen(s, v.v); gen(s, v.m); gen(s, v.mv); gen(s, v.oi); gen(s, v.os); gen(s, v.ov); gen(s, v.um); gen(s, v.vv); gen(s, v.vo); }
template <class T> static void gen(Src &s, optional<T> &v) { if (s.coin()) { T t; gen(s, t); v = t; } else v = optional<T>(); }
template <class T> static typename std::enable_if<std::is_arithmetic<T>::value, T>::type nth(size_t i) { return (T)i; }
template <class T> static typename std::enable_if<!std::is_arithmetic<T>::value, T>::type nth(size_t) { return T(); }
template <class T> static void gen(Src &s, std::vector<T> &v) { size_t n = s.choose(5) ? s.choose(3) : s.coin(1, 30) ? s.edge_len(200) : s.choose(9); v.clear(); if (std::is_arithmetic<T>::value && s.coin(1, 300)) { n = s.edge_len(70000); for (size_t i = 0; i < n; i++) v.push_back(nth<T>(i)); n = 0; } for (size_t i = 0; i < n; i++) { T t; gen(s, t); v.push_back(t); } }
template <class T> static void gen(Src &s, std::map<std::string, T> &v) { size_t n = s.choose(4); v.clear(); if (std::is_arithmetic<T>::value && s.coin(1, 300)) { n = s.edge_len(3000); for (size_t i = 0; i < n; i++) v["k" + std::to_string(i * 7919 % 100000)] = nth<T>(i); n = 0; } for (size_t i = 0; i < n; i++) { std::string k = jgen_key(s); gen(s, v[k]); } }
template <class T> static void gen(Src &s, pfi::data::unordered_map<std::string, T> &v) { size_t n = s.choose(4); v.clear(); if (std::is_arithmetic<T>::value && s.coin(1, 300)) { n = s.edge_len(3000); for (size_t i = 0; i < n; i++) v["k" + std::to_string(i * 7919 % 100000)] = nth<T>(i); n = 0; } for (size_t i = 0; i < n; i++) { std::string k = jgen_key(s); gen(s, v[k]); } }
// ---- independent conversion to the model ----
static JV mod(bool v) { return JV::of(v); }
static JV mod(int v) { return JV::of((int64_t)v); }
static JV mod(long v) { return JV::of((int64_t)v); }
static JV mod(long long v) { return JV::of((int64_t)v); }
static JV mod(double v) { return JV::of(v); }
static JV mod(float v) { return JV::of((double)v); }
static JV mod(const std::string &v) { return JV::of(v); }
static JV mod(const Raw &v) { JV r = JV::obj(); r.o["j"] = from_pfi(v.j); return r; }
template <class T> static JV mod(const optional<T> &v);
template <class T> static JV mod(const std::vector<T> &v);
template <class T> static JV mod(const std::map<std::string, T> &v);
template <class T> static JV mod(const pfi::data::unordered_map<std::string, T> &v);
static JV mod(const Inner &v) { JV r = JV::obj(); r.o["a"] = mod(v.a); r.o["b"] = mod(v.b); r.o["c"] = mod(v.c); r.o["d"] = mod(v.d); return r; }
static JV mod(const Outer &v) { JV r = JV::obj(); auto &o = r.o; o["f"] = mod(v.f); o["i"] = mod(v.i); o["l"] = mod(v.l); o["ll"] = mod(v.ll); o["x value"] = mod(v.x); o["y"] = mod(v.y); o["\xe6\x96\x87"] = mod(v.s); o["v"] = mod(v.v); o["m"] = mod(v.m); o["mv"] = mod(v.mv); o["oi"] = mod(v.oi); o["os"] = mod(v.os); o["ov"] = mod(v.ov); o["um"] = mod(v.um); o["vv"] = mod(v.vv); o["vo"] = mod(v.vo); return r; }
template <class T> static JV mod(const optional<T> &v) { return v ? mod(*v) : JV(); }
template <class T> static JV mod(const std::vector<T> &v) { JV r = JV::arr(); for (auto &x : v) r.a.push_back(mod(x)); return r; }
template <class T> static JV mod(const std::map<std::string, T> &v) { JV r = JV::obj(); for (auto &x : v) r.o[x.first] = mod(x.second); return r; }
template <class T> static JV mod(const pfi::data::unordered_map<std::string, T> &v) { JV r = JV::obj(); for (auto &x : v) r.o[x.first] = mod(x.second); return r; }
// ---- shape of a type ----
struct Sh { enum K { B, I, F, S, Vec, Map, Opt, St } k; std::shared_ptr<Sh> e; std::vector<std::pair<std::string, Sh>> m; };
static Sh prim(Sh::K k) { Sh s; s.k = k; return s; }
static Sh of(Sh::K k, const Sh &e) { Sh s; s.k = k; s.e = std::make_shared<Sh>(e); return s; }
static Sh sInner() { Sh s; s.k = Sh::St; s.m = {{"a", prim(Sh::I)}, {"b", prim(Sh::S)}, {"c", of(Sh::Opt, prim(Sh::F))}, {"d", of(Sh::Vec, prim(Sh::I))}}; return s; }
static Sh sOuter() { Sh s; s.k = Sh::St; Sh I = prim(Sh::I), S = prim(Sh::S), F = prim(Sh::F);
  s.m = {{"f", prim(Sh::B)}, {"i", I}, {"l", I}, {"ll", I}, {"x value", F}, {"y", F}, {"\xe6\x96\x87", S}, {"v", of(Sh::Vec, sInner())}, {"m", of(Sh::Map, sInner())}, {"mv", of(Sh::Map, of(Sh::Vec, S))}, {"oi", of(Sh::Opt, sInner())}, {"os", of(Sh::Opt, S)}, {"ov", of(Sh::Opt, of(Sh::Vec, I))}, {"um", of(Sh::Map, I)}, {"vv", of(Sh::Vec, of(Sh::Vec, F))}, {"vo", of(Sh::Vec, of(Sh::Opt, I))}}; return s; }
// does v have the shape?  If so v is normalised (missing optionals become null, unknown members vanish, integers in float places become floats)
static bool fits(const Sh &t, JV &v) {
  switch (t.k) {
    case Sh::B: return v.k == JV::Bool;
    case Sh::I: return v.k == JV::Int;
    case Sh::F: if (v.k == JV::Int) v = JV::of((double)v.i); return v.k == JV::Float;
    case Sh::S: return v.k == JV::Str;
    case Sh::Vec: if (v.k != JV::Arr) return false; for (auto &x : v.a) if (!fits(*t.e, x)) return false; return true;
    case Sh::Map: if (v.k != JV::Obj) return false; for (auto &x : v.o) if (!fits(*t.e, x.second)) return false; return true;
    case Sh::Opt: return v.k == JV::Null || fits(*t.e, v);
    default: { if (v.k != JV::Obj) return false; JV r = JV::obj();
      for (auto &m : t.m) { auto it = v.o.find(m.first); if (it == v.o.end()) { if (m.second.k != Sh::Opt) return false; r.o[m.first] = JV(); } else { JV x = it->second; if (!fits(m.second, x)) return false; r.o[m.first] = x; } }
      v = r; return true; }
  }
}
static JV *somewhere(JV &v, Src &s) { JV *p = &v; while ((!p->a.empty() || !p->o.empty()) && !s.coin(1, 4)) { if (!p->a.empty()) p = &p->a[s.choose(p->a.size())]; else { auto it = p->o.begin(); std::advance(it, s.choose(p->o.size())); p = &it->second; } } return p; }
static void mutate(JV &v, Src &s, Ctx &c) {
  JV *p = somewhere(v, s);
  switch (s.choose(6)) {
    case 0: *p = JV(); c.label("null put in"); break;
    case 1: { static const int ks[] = {0, 1, 2, 3, 4, 5, 6}; switch (ks[s.choose(7)]) { case 0: *p = JV(); break; case 1: *p = JV::of(true); break; case 2: *p = JV::of((int64_t)7); break; case 3: *p = JV::of(1.25); break; case 4: *p = JV::of(std::string("q")); break; case 5: *p = JV::arr(); break; default: *p = JV::obj(); } c.label("kind changed"); break; }
    case 2: if (!p->o.empty()) { auto it = p->o.begin(); std::advance(it, s.choose(p->o.size())); p->o.erase(it); c.label("member removed"); } break;
    case 3: if (p->k == JV::Obj) { p->o["extra"] = jgen(s, 1); c.label("member added"); } break;
    case 4: if (!p->a.empty()) p->a.erase(p->a.begin() + s.choose(p->a.size())); break;
    default: if (p->k == JV::Arr) p->a.push_back(jgen(s, 1));
  }
}
template <class T> static void roundtrip_t(Src &s, Ctx &c, const char *nm) {
  g_text = s.coin(); T v; gen(s, v); JV want = mod(v); NOTE(nm << " " << want.str()); c.nt(want.nodes() > 2);
  PJ j = to_json(v);
  JV got = from_pfi(j); CHECK(got == want, "converts to " << got.str());
  T w = json_cast<T>(j); CHECK(w == v, "json_cast gives another value: " << mod(w).str());
  T y; gen(s, y); from_json(j, y); CHECK(y == v, "from_json into a used object gives " << mod(y).str());
  if (g_text) {
    std::stringstream o; o << to_json(v); T z; o >> via_json(z); CHECK(z == v, "through text: " << mod(z).str());
    std::stringstream p; bool pretty = s.coin(), esc = s.coin(); { pfi::data::serialization::json_oarchive oa(p, pretty, esc); oa << v; oa << y; }
    pfi::data::serialization::json_iarchive ia(p); T a; ia >> a; CHECK(a == v, "through a JSON archive: " << mod(a).str());
  }
}
static void roundtrip(Src &s, Ctx &c) {
  switch (s.choose(20)) {
    case 8: roundtrip_t<int>(s, c, "int"); break; case 9: roundtrip_t<long>(s, c, "long"); break; case 10: roundtrip_t<long long>(s, c, "long long"); break; case 11: roundtrip_t<double>(s, c, "double"); break;
    case 12: roundtrip_t<float>(s, c, "float"); break; case 13: roundtrip_t<std::string>(s, c, "string"); break; case 14: roundtrip_t<bool>(s, c, "bool"); break; case 15: roundtrip_t<Raw>(s, c, "Raw"); break;
    case 16: roundtrip_t<std::vector<Raw>>(s, c, "vector<Raw>"); break; case 17: roundtrip_t<std::map<std::string, float>>(s, c, "map<float>"); break; case 18: roundtrip_t<optional<std::vector<optional<long>>>>(s, c, "optional<vector<optional<long>>>"); break;
    case 19: { uint64_t u = s.uedge(63); NOTE("unsigned " << u); c.nt(); CHECK(from_pfi(to_json((unsigned)u)) == JV::of((int64_t)(unsigned)u) && from_pfi(to_json((unsigned long)u)) == JV::of((int64_t)u) && from_pfi(to_json((unsigned long long)u)) == JV::of((int64_t)u), "an unsigned value " << u << " converts to another number"); break; }
    case 0: roundtrip_t<Outer>(s, c, "Outer"); break;
    case 1: roundtrip_t<Inner>(s, c, "Inner"); break;
    case 2: roundtrip_t<std::vector<std::map<std::string, Inner>>>(s, c, "vector<map<Inner>>"); break;
    case 3: roundtrip_t<std::map<std::string, std::vector<optional<Inner>>>>(s, c, "map<vector<optional<Inner>>>"); break;
    case 4: roundtrip_t<pfi::data::unordered_map<std::string, std::vector<double>>>(s, c, "unordered_map<vector<double>>"); break;
    case 5: roundtrip_t<std::vector<std::vector<std::string>>>(s, c, "vector<vector<string>>"); break;
    case 6: roundtrip_t<std::vector<Outer>>(s, c, "vector<Outer>"); break;
    default: roundtrip_t<std::vector<long long>>(s, c, "vector<long long>");
  }
}
static bool same(const JV &a, const JV &b);
template <class T> static void shape_t(Src &s, Ctx &c, const Sh &sh) {
  g_text = true; T v; gen(s, v); JV m = mod(v); size_t n = 1 + s.choose(2); for (size_t i = 0; i < n; i++) mutate(m, s, c);
  NOTE("json " << m.str()); JV norm = m; bool ok = fits(sh, norm); c.nt(!ok || norm != m); c.label(ok ? "fits" : "does not fit");
  PJ j = to_pfi(m); bool threw = false; T w; gen(s, w);
  try { w = json_cast<T>(j); } catch (const json_bad_cast_any &e) { threw = true; }
  CHECK(threw == !ok, (ok ? "JSON of the right shape is refused" : "JSON of a wrong shape is accepted"));
  CHECK(from_pfi(j) == m, "the conversion changed the document");
  if (ok) { // ints are narrowed only when they do not fit
    JV back = mod(w); CHECK(same(back, norm), "converted to " << back.str() << ", should be " << norm.str());
    T u; gen(s, u); std::string was = mod(u).str(); from_json(j, u); CHECK(same(mod(u), norm), "from_json into an object that was " << was << " gives " << mod(u).str() << ", should be " << norm.str());
    std::stringstream o; j.print(o, true); JV p = after_print(m); if (fits(sh, p)) { T x; gen(s, x); was = mod(x).str(); o >> via_json(x); CHECK(same(mod(x), p), "reading text into an object that was " << was << " gives " << mod(x).str() << ", should be " << p.str()); } }
}
static void shape(Src &s, Ctx &c) {
  if (s.coin()) shape_t<Outer>(s, c, sOuter());
  else if (s.coin()) shape_t<std::vector<Inner>>(s, c, of(Sh::Vec, sInner()));
  else if (s.coin()) shape_t<std::map<std::string, std::vector<std::string>>>(s, c, of(Sh::Map, of(Sh::Vec, prim(Sh::S))));
  else shape_t<Inner>(s, c, sInner());
}
// conversion with defaults: what fits is taken, everything else keeps the default
static JV zero(const Sh &t) { switch (t.k) { case Sh::B: return JV::of(false); case Sh::I: return JV::of((int64_t)0); case Sh::F: return JV::of(0.0); case Sh::S: return JV::of(std::string()); case Sh::Vec: return JV::arr(); case Sh::Map: return JV::obj(); case Sh::Opt: return JV(); default: { JV r = JV::obj(); for (auto &m : t.m) r.o[m.first] = zero(m.second); return r; } } }
static bool g_open;   // an empty optional meets a value of another kind: open
static JV overlay(const Sh &t, const JV &def, const JV &doc) {
  switch (t.k) {
    case Sh::B: return doc.k == JV::Bool ? doc : def;
    case Sh::I: return doc.k == JV::Int ? doc : def;
    case Sh::F: return doc.k == JV::Float ? doc : doc.k == JV::Int ? JV::of((double)doc.i) : def;
    case Sh::S: return doc.k == JV::Str ? doc : def;
    case Sh::Vec: { if (doc.k != JV::Arr) return def; JV r = def; while (r.a.size() < doc.a.size()) r.a.push_back(zero(*t.e)); for (size_t i = 0; i < doc.a.size(); i++) r.a[i] = overlay(*t.e, r.a[i], doc.a[i]); return r; }
    case Sh::Map: { if (doc.k != JV::Obj) return def; JV r = def; for (auto &x : doc.o) { auto it = r.o.find(x.first); r.o[x.first] = overlay(*t.e, it == r.o.end() ? zero(*t.e) : it->second, x.second); } return r; }
    case Sh::Opt: { if (doc.k == JV::Null) return JV(); JV d = doc; if (def.k == JV::Null && !fits(*t.e, d)) g_open = true; return overlay(*t.e, def.k == JV::Null ? zero(*t.e) : def, doc); }
    default: { if (doc.k != JV::Obj) return def; JV r = def; for (auto &m : t.m) { auto it = doc.o.find(m.first); if (it != doc.o.end()) r.o[m.first] = overlay(m.second, def.o.at(m.first), it->second); } return r; }
  }
}
static bool same(const JV &a, const JV &b) {
  if (a.k != b.k) return false; if (a.k == JV::Int) return a.i == b.i || a.i == (int64_t)(int)b.i; if (a.k == JV::Float) return a.d == b.d || (float)a.d == (float)b.d; if (a.a.size() != b.a.size() || a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!same(a.a[i], b.a[i])) return false; for (auto &x : a.o) if (!b.o.count(x.first) || !same(x.second, b.o.at(x.first))) return false; return a.k == JV::Str ? a.s == b.s : a.k == JV::Bool ? a.b == b.b : true;
}
template <class T> static void defaults_t(Src &s, Ctx &c, const Sh &sh) {
  g_text = true; T v, d; gen(s, v); gen(s, d); JV m = mod(v); size_t n = s.choose(4); for (size_t i = 0; i < n; i++) mutate(m, s, c);
  if (s.coin(1, 3)) for (auto &x : sh.m) if (s.coin()) m.o.erase(x.first);
  NOTE("json " << m.str() << " default " << mod(d).str()); g_open = false; JV want = overlay(sh, mod(d), m); if (g_open) { c.label("open case"); return; } c.nt(want != mod(d));
  PJ j = to_pfi(m); T r = json_cast_with_default<T>(j, d); CHECK(same(mod(r), want), "gives " << mod(r).str() << ", should be " << want.str());
  T e = d; from_json_with_default(j, e); CHECK(same(mod(e), want), "from_json_with_default gives " << mod(e).str() << ", should be " << want.str());
  std::stringstream o; j.print(o, true); T f = d; o >> via_json_with_default(f); JV want2 = overlay(sh, mod(d), after_print(m)); CHECK(same(mod(f), want2), "through text gives " << mod(f).str() << ", should be " << want2.str());
  CHECK(from_pfi(j) == m, "the conversion changed the document");
}
static void defaults(Src &s, Ctx &c) {
  Sh I = prim(Sh::I), S = prim(Sh::S), F = prim(Sh::F), B = prim(Sh::B);
  switch (s.choose(16)) {
    case 0: case 1: case 2: defaults_t<Outer>(s, c, sOuter()); break;
    case 3: case 4: defaults_t<Inner>(s, c, sInner()); break;
    case 5: defaults_t<std::vector<Inner>>(s, c, of(Sh::Vec, sInner())); break;
    case 6: defaults_t<std::map<std::string, Inner>>(s, c, of(Sh::Map, sInner())); break;
    case 7: defaults_t<pfi::data::unordered_map<std::string, std::vector<double>>>(s, c, of(Sh::Map, of(Sh::Vec, F))); break;
    case 8: defaults_t<int>(s, c, I); break; case 9: defaults_t<long>(s, c, I); break; case 10: defaults_t<long long>(s, c, I); break;
    case 11: defaults_t<float>(s, c, F); break; case 12: defaults_t<double>(s, c, F); break; case 13: defaults_t<bool>(s, c, B); break; case 14: defaults_t<std::string>(s, c, S); break;
    default: defaults_t<std::vector<optional<Inner>>>(s, c, of(Sh::Vec, of(Sh::Opt, sInner())));
  }
}
Suite pbt::suite() {
  Suite u; u.property = "C04";
  u.rule = "random values of 18 scalar and nested C++ types (one with a member that is JSON itself) converted to JSON and back directly, through text and through JSON archives, against a hand-written conversion; documents with members removed, added, replaced or of another kind against a shape checker that decides accept/refuse and the converted value, and over generated defaults against a member-by-member overlay; non-trivial = 3+ nodes, or a document that does not fit or needs normalising";
  u.props = {{"roundtrip", roundtrip, 40000, 1000000, false}, {"shape", shape, 60000, 1500000, true}, {"defaults", defaults, 30000, 500000, false}};
  u.assumptions = {"through text only floats with at most 12 significant digits are used", "optionals are not nested directly inside optionals", "integers wider than the target are narrowed and not checked"};
  return u;
}
