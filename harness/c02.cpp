#include "jmodel.h"
using namespace pbt;
namespace js = pfi::text::json;

// writes v using every freedom of the grammar; duplicates of object keys are inserted before the final one
struct Writer {
  Src &s; Ctx &c; std::string out; bool ws_on, esc_on, big_ws;
  Writer(Src &s_, Ctx &c_) : s(s_), c(c_) { ws_on = s.coin(); esc_on = s.coin(2, 3); big_ws = s.coin(1, 30); }
  void ws() { if (!ws_on) return; if (big_ws && s.coin(1, 8)) { out += s.blob(s.edge_len(5000), " \t\n\r"); c.label("long white space"); return; } size_t n = s.choose(4) ? 0 : s.choose(4); for (size_t i = 0; i < n; i++) out += " \t\n\r"[s.choose(4)]; }
  void u4(uint32_t u) { char b[8]; snprintf(b, sizeof b, s.coin() ? "\\u%04x" : "\\u%04X", u); out += b; }
  void str(const std::string &t) {
    out += '"';
    for (size_t i = 0; i < t.size();) {
      unsigned char ch = t[i]; uint32_t u; size_t n;
      if (ch < 0x80) { u = ch; n = 1; } else if (ch < 0xe0) { u = ch & 31; n = 2; } else if (ch < 0xf0) { u = ch & 15; n = 3; } else { u = ch & 7; n = 4; }
      for (size_t k = 1; k < n; k++) u = u << 6 | (t[i + k] & 63);
      static const char sh[] = "\"\\/\b\f\n\r\t", let[] = "\"\\/bfnrt";
      const char *q = u && u < 0x80 ? strchr(sh, (int)u) : nullptr;
      bool must = u < 0x20 || u == '"' || u == '\\';
      int how = must ? (q ? (int)s.choose(2) : 1) : esc_on ? (int)s.choose(4) : 2;
      if (how == 0 && q) { out += '\\'; out += let[q - sh]; }
      else if (how <= 1) { if (u >= 0x10000) { u4(0xd800 + ((u - 0x10000) >> 10)); u4(0xdc00 + ((u - 0x10000) & 0x3ff)); c.label("surrogate pair"); } else u4(u); c.label("\\u escape"); }
      else out.append(t, i, n);
      i += n;
    }
    out += '"';
  }
  void value(const JV &v) {
    ws();
    switch (v.k) {
      case JV::Null: out += "null"; break;
      case JV::Bool: out += v.b ? "true" : "false"; break;
      case JV::Int: { char b[32]; snprintf(b, sizeof b, "%lld", (long long)v.i); if (v.i == 0 && s.coin(1, 8)) out += "-0"; else out += b; break; }
      case JV::Float: out += v.s; break;     // its text was made with the value
      case JV::Str: str(v.s); break;
      case JV::Arr: out += '['; for (size_t i = 0; i < v.a.size(); i++) { if (i) { ws(); out += ','; } value(v.a[i]); } ws(); out += ']'; break;
      default: { out += '{'; bool f = true;
        for (auto &m : v.o) {
          if (s.coin(1, 10)) { if (!f) out += ','; f = false; ws(); str(m.first); ws(); out += ':'; value(JV::of((int64_t)s.choose(5))); ws(); c.label("duplicate key"); }
          if (!f) out += ','; f = false; ws(); str(m.first); ws(); out += ':'; value(m.second); ws(); }
        out += '}'; }
    }
    ws();
  }
};
// a float with its text (always with fraction or exponent, within range)
static JV gfloat(Src &s) {
  std::string t; if (s.coin()) t += '-';
  auto digs = [&](size_t n) { std::string r; for (size_t i = 0; i < n; i++) r += (char)('0' + s.choose(10)); return r; };
  std::string ip = s.coin(1, 3) ? "0" : (char)('1' + s.choose(9)) + digs(s.size(s.coin(1, 10) ? 40 : 12));
  t += ip; bool fr = s.coin(2, 3); if (fr) { t += "." + digs(1 + s.size(s.coin(1, 10) ? 60 : 10)); if (s.coin(1, 40)) t += s.blob(s.edge_len(2000), s.coin() ? "0123456789" : "0") + "7"; }
  if (!fr || s.coin()) { t += s.pick<const char *>({"e", "E"}); t += s.pick<const char *>({"", "+", "-"}); if (s.coin(1, 5)) t += s.coin(1, 10) ? std::string(s.edge_len(500), '0') : "0"; t += std::to_string(s.coin(1, 3) ? s.choose(10) : s.coin(1, 6) ? 280 + s.choose(60) : s.choose(270)); }
  errno = 0; double d = strtod(t.c_str(), nullptr);
  if (!std::isfinite(d) || (d == 0 && t.find_first_of("123456789") < t.find_first_of("eE"))) { t = "2.5e1"; d = 25; }
  JV v = JV::of(d); v.s = t; return v;
}
static JV gen(Src &s, int depth) {
  JV v = jgen(s, 0, false);
  int k = (int)s.choose(depth > 0 ? 8 : 5);
  if (k == 3) return gfloat(s);
  if (depth > 0 && s.coin(1, 100)) { JV r = jgen(s, 1, false); if (r.k == JV::Arr || r.k == JV::Obj) return r; }
  if (k == 5 || k == 6) { JV r = JV::arr(); size_t n = s.size(7); for (size_t i = 0; i < n; i++) r.a.push_back(gen(s, depth - 1)); return r; }
  if (k == 7) { JV r = JV::obj(); size_t n = s.size(6); for (size_t i = 0; i < n; i++) { std::string key = jgen_key(s); r.o[key] = gen(s, depth - 1); } return r; }
  return v;
}
static JV clean(const JV &v) { JV r = v; if (r.k == JV::Float) r.s.clear(); for (auto &x : r.a) x = clean(x); for (auto &x : r.o) x.second = clean(x.second); return r; }

static void one(Src &s, Ctx &c) {
  JV v = gen(s, 4); Writer w(s, c); w.value(v); JV want = clean(v);
  NOTE("text " << show(w.out)); c.nt(v.nodes() > 1 || v.k == JV::Float || v.k == JV::Str);
  JV ind; try { ind = JReader(w.out).document(); } catch (JErr &e) { FAIL("harness: reference reader refuses its own text: " << e.why); }
  CHECK(ind == want, "harness: reference reader disagrees with the generator");
  std::istringstream is(w.out); PJ j;
  try { is >> j; } catch (const std::exception &e) { FAIL("valid JSON refused: " << e.what() << " for " << show(w.out)); }
  JV got = from_pfi(j);
  CHECK(got == want, "parsed as " << got.str() << ", should be " << want.str());
}
// scalars at the very end of the input, without anything after them
static void scalar_eof(Src &s, Ctx &c) {
  JV v = s.coin() ? gfloat(s) : jgen(s, 0, false); Writer w(s, c); w.ws_on = false; w.value(v); c.nt();
  if (s.coin(1, 4)) w.out += std::string(s.choose(3), ' ');
  NOTE("text " << show(w.out));
  std::istringstream is(w.out); PJ j;
  try { is >> j; } catch (const std::exception &e) { FAIL("valid JSON refused: " << e.what() << " for " << show(w.out)); }
  CHECK(from_pfi(j) == clean(v), "parsed as " << from_pfi(j).str() << " from " << show(w.out));
}
static void deep(Src &s, Ctx &c) {
  JV v = gen(s, 1); size_t d = s.coin() ? s.edge_len(1100) : s.choose(200);
  for (size_t i = 0; i < d; i++) { JV w; if (s.coin()) { w = JV::arr(); if (s.coin(1, 4)) w.a.push_back(JV::of((int64_t)i)); w.a.push_back(std::move(v)); if (s.coin(1, 4)) w.a.push_back(JV()); } else { w = JV::obj(); if (s.coin(1, 4)) w.o["m"] = JV::of((int64_t)i); w.o["n"] = std::move(v); if (s.coin(1, 4)) w.o["o"] = JV::of(true); } v = std::move(w); }
  Writer w(s, c); w.value(v); NOTE("depth " << d); c.nt(d > 1); std::istringstream is(w.out); PJ j;
  try { is >> j; } catch (const std::exception &e) { FAIL("valid JSON refused: " << e.what() << " at depth " << d); }
  CHECK(from_pfi(j) == clean(v), "a document nested " << d << " deep is misread");
}
// containers of very many elements, with smaller ones inside and after them
static JV wide_value(uint64_t &x, int depth, size_t n, std::string &out) {
  auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
  if (depth == 0 || n == 0) { switch (rnd(5)) { case 0: out += "true"; return JV::of(true); case 1: out += "null"; return JV(); case 2: { std::string k(rnd(4), 'q'); out += '"' + k + '"'; return JV::of(k); } default: { int64_t i = (int64_t)rnd(100000); out += std::to_string(i); return JV::of(i); } } }
  bool arr = rnd(3) != 0; JV r = arr ? JV::arr() : JV::obj(); out += arr ? '[' : '{'; uint64_t every = 1 + rnd(rnd(2) ? 12 : n + 2), keys = rnd(2) ? n * 4 : n / 2 + 1;
  for (size_t i = 0; i < n; i++) {
    if (i) out += ','; size_t sub = i % every == every - 1 ? rnd(5) : 0; std::string k;
    if (!arr) { k = "k" + std::to_string(rnd(keys)); out += '"' + k + "\":"; }
    JV v = sub ? wide_value(x, depth - 1, sub, out) : wide_value(x, 0, 0, out);
    if (arr) r.a.push_back(std::move(v)); else r.o[k] = std::move(v);      // of equal keys the last one counts
  }
  out += arr ? ']' : '}'; return r;
}
static void wide(Src &s, Ctx &c) {
  size_t n = s.coin(1, 12) ? 65536 + s.choose(4000) : s.coin(1, 3) ? s.edge_len(70000) : s.edge_len(3000); uint64_t x = s.u64(); std::string t; JV v = wide_value(x, 2, n, t); JV two = JV::arr();
  if (s.coin(1, 3)) { std::string u; JV w = wide_value(x, 1, s.choose(20) + 1, u); t = "[" + t + "," + u + "]"; two.a.push_back(std::move(v)); two.a.push_back(std::move(w)); v = std::move(two); }
  NOTE("a container of " << n << " elements"); c.nt(n > 30); std::istringstream is(t); PJ j;
  try { is >> j; } catch (const std::exception &e) { FAIL("valid JSON refused: " << e.what() << " for a container of " << n << " elements"); }
  CHECK(from_pfi(j) == v, "a container of " << n << " elements is misread");
}
// several documents in one input
static void many(Src &s, Ctx &c) {
  size_t n = 2 + s.choose(4); std::string t; std::vector<JV> want;
  for (size_t i = 0; i < n; i++) {
    JV v = gen(s, 2); Writer w(s, c); w.value(v); want.push_back(clean(v));
    auto hard = [](char ch) { return strchr("[]{}\"", ch) != nullptr; };
    bool free_end = !t.empty() && (strchr(" \t\r\n", t.back()) || hard(t.back()) || hard(w.out[0]) || strchr(" \t\r\n", w.out[0]));
    if (!t.empty() && !(free_end && s.coin())) t += s.pick<const char *>({" ", "\n", "\r\n", "\t "}); else if (!t.empty()) c.label("nothing between documents");
    t += w.out;
  }
  if (s.coin()) t += s.pick<const char *>({" ", "\n", "\r\n", "\t "}); else while (!t.empty() && strchr(" \r\n\t", t.back())) t.pop_back();
  NOTE("text " << show(t)); c.nt();
  std::istringstream is(t); js::json_parser p(is);
  for (size_t i = 0; i < n; i++) { JV g; try { g = from_pfi(p.parse()); } catch (const std::exception &e) { FAIL("document " << i << " refused: " << e.what()); } CHECK(g == want[i], "document " << i << " parsed as " << g.str() << ", should be " << want[i].str()); }
  for (int r = 0; r < 2; r++) {
    bool eod = false; try { p.parse(); } catch (const pfi::lang::end_of_data &) { eod = true; }
    CHECK(eod, "no end-of-data error after the last document");
  }
}
// the callback interface delivers the same document as the value interface
struct Build : js::json_parser::callback {
  struct F { JV v; std::string key; }; std::vector<F> st; JV root; bool have = false;
  void put(const JV &v) { if (st.empty()) { CHECK(!have, "two roots from one document"); root = v; have = true; } else if (st.back().v.k == JV::Arr) st.back().v.a.push_back(v); else st.back().v.o[st.back().key] = v; }
  void null() override { put(JV()); }
  void boolean(bool b) override { put(JV::of(b)); }
  void integer(int64_t i) override { put(JV::of(i)); }
  void number(double d) override { put(JV::of(d)); }
  void string(const char *p, size_t n) override { put(JV::of(std::string(p, n))); }
  void start_object() override { st.push_back({JV::obj(), ""}); }
  void object_key(const char *p, size_t n) override { CHECK(!st.empty() && st.back().v.k == JV::Obj, "key outside an object"); st.back().key.assign(p, n); }
  void end_object() override { CHECK(!st.empty() && st.back().v.k == JV::Obj, "unbalanced end_object"); JV v = st.back().v; st.pop_back(); put(v); }
  void start_array() override { st.push_back({JV::arr(), ""}); }
  void end_array() override { CHECK(!st.empty() && st.back().v.k == JV::Arr, "unbalanced end_array"); JV v = st.back().v; st.pop_back(); put(v); }
};
static void events(Src &s, Ctx &c) {
  JV v = gen(s, 3); Writer w(s, c); w.value(v); NOTE("text " << show(w.out)); c.nt(v.nodes() > 1);
  std::istringstream is(w.out); js::json_parser p(is); Build b; p.parse_stream(b);
  CHECK(b.st.empty() && b.have && b.root == clean(v), "events rebuild to " << b.root.str());
}
Suite pbt::suite() {
  Suite u; u.property = "C02";
  u.rule = "random RFC 8259 texts written from random values with random whitespace, escape forms, surrogate pairs, number forms and duplicate keys; one or several documents per input, containers of up to 70000 elements and nesting up to 1100 deep, value and callback interfaces; oracle: the generated value and a strict independent reader; non-trivial = 2+ nodes, or a float or string";
  u.props = {{"one", one, 150000, 4000000, true}, {"scalar_eof", scalar_eof, 60000, 1000000, false}, {"many", many, 30000, 800000, false}, {"events", events, 30000, 600000, false}, {"deep", deep, 1500, 30000, false}, {"wide", wide, 600, 12000, false}};
  u.assumptions = {"floating-point numbers neither overflow nor underflow to zero", "object keys are compared as byte strings after unescaping"};
  return u;
}
