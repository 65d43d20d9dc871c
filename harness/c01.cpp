#include "jmodel.h"
using namespace pbt;
namespace js = pfi::text::json;

static PJ parse(const std::string &t) { std::istringstream is(t); PJ j; is >> j; return j; }
static std::string print(const PJ &j, int mode) {
  std::ostringstream o;
  switch (mode) {
    case 0: j.print(o, true); break;
    case 1: j.print(o, false); break;
    case 2: j.pretty(o, true); break;
    case 3: j.pretty(o, false); break;
    case 4: o << j; break;
    case 5: o << js::pretty(j); break;
    case 6: o << js::without_escape(j); break;
    case 8: o << js::without_escape(js::pretty(j)); break;
    default: o << js::pretty(js::without_escape(j));
  }
  return o.str();
}
static void check_value(const JV &v, Src &s, Ctx &c) {
  NOTE("value " << v.str());
  c.nt(v.nodes() >= 2 || v.k == JV::Str || v.k == JV::Float);
  PJ j = to_pfi(v);
  JV want = after_print(v);
  JV self = from_pfi(j);
  CHECK(self == v, "the built value does not read back: " << self.str());
  for (int m = 0; m < 9; m++) {
    std::string t = print(j, m);
    JV ind;
    try { JReader r(t); ind = r.document(); } catch (JErr &e) { FAIL("mode " << m << " printed invalid JSON (" << e.why << " at " << e.at << "): " << show(t)); }
    CHECK(ind == want, "mode " << m << ": an independent reader gets " << ind.str() << " from " << show(t));
    PJ k = parse(t);
    JV back = from_pfi(k);
    CHECK(back == want, "mode " << m << ": re-parsed as " << back.str() << " from " << show(t));
    CHECK(js::equals(k, to_pfi(want)) && k == to_pfi(want) && !(k != to_pfi(want)), "mode " << m << ": the re-parsed value is not equal to the value");
    if (m % 2 == 0 && m < 6) for (unsigned char ch : t) CHECK(ch < 0x80, "mode " << m << ": escaped output contains byte " << (int)ch);
  }
}
static void values(Src &s, Ctx &c) { check_value(jgen(s, 4), s, c); }
static void strings(Src &s, Ctx &c) {
  std::string t;
  switch (s.choose(3)) {
    case 0: t = s.utf8(40); break;
    case 1: { size_t n = s.size(900); for (size_t i = 0; i < n; i++) utf8_append(t, s.coin(1, 20) ? s.codepoint() : 'x'); break; }
    default: { size_t base = s.pick<size_t>({240, 248, 250, 252, 256, 496, 504, 512, 1008, 1024}); size_t n = base + s.range(-12, 12); t.assign(n, 'y'); for (int i = 0; i < 3; i++) utf8_append(t, s.codepoint()); c.label("string near a buffer boundary"); }
  }
  JV v = JV::of(t);
  if (s.coin(1, 3)) { JV o = JV::obj(); o.o[t] = JV::of(t); v = o; c.label("long key"); }
  if (t.find('\0') != std::string::npos) c.label("contains NUL");
  check_value(v, s, c);
}
static void numbers(Src &s, Ctx &c) {
  JV a = JV::arr(); size_t n = 1 + s.size(6);
  for (size_t i = 0; i < n; i++) a.a.push_back(s.coin() ? JV::of(s.finite()) : JV::of(s.i64()));
  if (has_tiny(a)) c.label("denormal float");
  check_value(n == 1 ? a.a[0] : a, s, c);
}
static void deep(Src &s, Ctx &c) {
  JV v = jgen(s, 1); size_t d = s.coin(1, 20) ? s.edge_len(1100) : 5 + s.choose(120); if (d > 150) c.label("nested more than 150 deep");
  for (size_t i = 0; i < d; i++) { JV w; if (s.coin()) { w = JV::arr(); if (s.coin(1, 4)) w.a.push_back(JV::of((int64_t)i)); w.a.push_back(v); if (s.coin(1, 4)) w.a.push_back(JV()); } else { w = JV::obj(); w.o[jgen_key(s)] = v; if (s.coin(1, 4)) w.o["zz"] = JV::of(true); } v = w; }
  check_value(v, s, c);
}
// the order in which the stream's own state is set must not matter, and printing must not disturb it
static void stream_state(Src &s, Ctx &c) {
  JV v = JV::arr(); size_t n = 1 + s.size(5); for (size_t i = 0; i < n; i++) v.a.push_back(JV::of(s.finite()));
  std::ostringstream o; o.precision(s.range(0, 17)); auto p = o.precision();
  NOTE(v.str() << " on a stream of precision " << p); c.nt();
  to_pfi(v).print(o, true);
  CHECK(o.precision() == p, "printing changed the stream's precision");
  JReader r(o.str()); JV g;
  try { g = r.document(); } catch (JErr &e) { FAIL("invalid JSON " << show(o.str())); }
  CHECK(g == after_print(v), "printed " << show(o.str()) << " for " << v.str());
}
Suite pbt::suite() {
  Suite u;
  u.property = "C01";
  u.rule = "random JSON value trees (depth<=1100, any Unicode text incl. NUL, 64-bit integers, finite doubles, strings around buffer boundaries); printed in 9 ways, read by an independent strict RFC 8259 reader and by the library; non-trivial = a tree of 2+ nodes, a string or a float";
  u.props = {{"values", values, 120000, 3000000, true}, {"strings", strings, 40000, 1000000, true}, {"numbers", numbers, 60000, 2000000, false}, {"deep", deep, 2000, 60000, false}, {"stream_state", stream_state, 20000, 400000, false}};
  u.assumptions = {"streams are in their default format flags except precision", "nesting depth at most 1100"};
  return u;
}
