// Independent JSON model: values, a strict RFC 8259 reader, generators and a
// randomised writer that uses every freedom the grammar gives.
#ifndef JMODEL_H
#define JMODEL_H
#include "pbt.h"
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <pfi_json.h>

struct JV {
  enum K { Null, Bool, Int, Float, Str, Arr, Obj } k = Null;
  bool b = false; int64_t i = 0; double d = 0; std::string s;
  std::vector<JV> a; std::map<std::string, JV> o;
  static JV of(int64_t v) { JV j; j.k = Int; j.i = v; return j; }
  static JV of(double v) { JV j; j.k = Float; j.d = v; return j; }
  static JV of(bool v) { JV j; j.k = Bool; j.b = v; return j; }
  static JV of(const std::string &v) { JV j; j.k = Str; j.s = v; return j; }
  static JV arr() { JV j; j.k = Arr; return j; }
  static JV obj() { JV j; j.k = Obj; return j; }
  bool operator==(const JV &r) const {
    if (k != r.k) return false;
    switch (k) {
      case Null: return true;
      case Bool: return b == r.b;
      case Int: return i == r.i;
      case Float: return d == r.d;
      case Str: return s == r.s;
      case Arr: return a == r.a;
      default: return o == r.o;
    }
  }
  bool operator!=(const JV &r) const { return !(*this == r); }
  size_t nodes() const { size_t n = 1; for (auto &x : a) n += x.nodes(); for (auto &x : o) n += x.second.nodes(); return n; }
  size_t depth() const { size_t n = 0; for (auto &x : a) n = std::max(n, x.depth()); for (auto &x : o) n = std::max(n, x.second.depth()); return n + 1; }
  std::string str() const {
    char buf[64];
    switch (k) {
      case Null: return "null";
      case Bool: return b ? "true" : "false";
      case Int: snprintf(buf, sizeof buf, "%lld", (long long)i); return buf;
      case Float: snprintf(buf, sizeof buf, "%.17gf", d); return buf;
      case Str: return pbt::show(s, 80);
      case Arr: { std::string r = "["; for (size_t n = 0; n < a.size(); n++) r += (n ? "," : "") + a[n].str(); return r + "]"; }
      default: { std::string r = "{"; bool f = true; for (auto &x : o) { r += (f ? "" : ",") + pbt::show(x.first, 40) + ":" + x.second.str(); f = false; } return r + "}"; }
    }
  }
};

// ---- strict reader ----
struct JErr { std::string why; size_t at; };
class JReader {
public: bool lenient_zero = false, underflow = false; private:
  const std::string t; size_t p = 0; int depth = 0;
  [[noreturn]] void err(const char *w) { throw JErr{w, p}; }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
  bool lit(const char *l) { size_t n = strlen(l); if (t.compare(p, n, l) == 0) { p += n; return true; } return false; }
  int hex4() { int v = 0; for (int n = 0; n < 4; n++) { if (p >= t.size()) err("eof in \\u"); char c = t[p++]; int h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (h < 0) err("bad hex"); v = v * 16 + h; } return v; }
  std::string str() {
    if (p >= t.size() || t[p] != '"') err("string expected");
    p++; std::string r;
    for (;;) {
      if (p >= t.size()) err("eof in string");
      unsigned char c = t[p];
      if (c == '"') { p++; return r; }
      if (c < 0x20) err("control character in string");
      if (c == '\\') {
        p++; if (p >= t.size()) err("eof in escape");
        char e = t[p++];
        switch (e) {
          case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break;
          case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
          case 'u': { uint32_t u = hex4();
            if (u >= 0xdc00 && u < 0xe000) err("lone low surrogate");
            if (u >= 0xd800 && u < 0xdc00) { if (p + 1 >= t.size() || t[p] != '\\' || t[p + 1] != 'u') err("lone high surrogate"); p += 2; uint32_t l = hex4(); if (l < 0xdc00 || l > 0xdfff) err("bad low surrogate"); u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); }
            pbt::utf8_append(r, u); break; }
          default: err("bad escape");
        }
        continue;
      }
      if (c < 0x80) { r += (char)c; p++; continue; }
      // UTF-8
      int n; uint32_t u, mn;
      if (c >= 0xc2 && c <= 0xdf) { n = 1; u = c & 31; mn = 0x80; } else if (c >= 0xe0 && c <= 0xef) { n = 2; u = c & 15; mn = 0x800; }
      else if (c >= 0xf0 && c <= 0xf4) { n = 3; u = c & 7; mn = 0x10000; } else err("bad UTF-8");
      if (p + n >= t.size()) err("bad UTF-8");
      for (int q = 1; q <= n; q++) { unsigned char x = t[p + q]; if ((x & 0xc0) != 0x80) err("bad UTF-8"); u = u << 6 | (x & 63); }
      if (u < mn || u > 0x10ffff || (u >= 0xd800 && u < 0xe000)) err("bad UTF-8");
      r.append(t, p, n + 1); p += n + 1;
    }
  }
  JV num() {
    size_t b = p; bool fl = false;
    auto dig = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
    if (t[p] == '-') p++;
    if (!dig()) err("digit expected");
    if (t[p] == '0' && !lenient_zero) p++; else while (dig()) p++;
    if (p < t.size() && t[p] == '.') { fl = true; p++; if (!dig()) err("digit expected"); while (dig()) p++; }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { fl = true; p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!dig()) err("digit expected"); while (dig()) p++; }
    std::string x = t.substr(b, p - b);
    if (fl) { double d = strtod(x.c_str(), nullptr); if (!std::isfinite(d)) err("float overflow"); if (d == 0 && x.find_first_of("123456789") < x.find_first_of("eE")) underflow = true; return JV::of(d); }
    errno = 0; long long v = strtoll(x.c_str(), nullptr, 10); if (errno == ERANGE) err("integer overflow");
    return JV::of((int64_t)v);
  }
public:
  explicit JReader(const std::string &s) : t(s) {}
  JV value() {
    ws(); if (p >= t.size()) err("eof");
    if (++depth > 2000) err("too deep");
    JV r;
    char c = t[p];
    if (c == '{') {
      r = JV::obj(); p++; ws();
      if (p < t.size() && t[p] == '}') p++;
      else for (;;) { ws(); std::string k = str(); ws(); if (p >= t.size() || t[p] != ':') err("colon"); p++; r.o[k] = value(); ws(); if (p >= t.size()) err("eof"); if (t[p] == ',') { p++; continue; } if (t[p] == '}') { p++; break; } err("comma"); }
    } else if (c == '[') {
      r = JV::arr(); p++; ws();
      if (p < t.size() && t[p] == ']') p++;
      else for (;;) { r.a.push_back(value()); ws(); if (p >= t.size()) err("eof"); if (t[p] == ',') { p++; continue; } if (t[p] == ']') { p++; break; } err("comma"); }
    } else if (c == '"') r = JV::of(str());
    else if (c == '-' || (c >= '0' && c <= '9')) r = num();
    else if (lit("true")) r = JV::of(true);
    else if (lit("false")) r = JV::of(false);
    else if (lit("null")) r = JV();
    else err("unexpected character");
    depth--;
    return r;
  }
  JV document() { JV v = value(); ws(); if (p != t.size()) err("trailing"); return v; }
  bool more() { ws(); return p < t.size(); }
  size_t pos() const { return p; }
};

// ---- generators ----
inline std::string jgen_key(pbt::Src &s) { return s.coin(2, 3) ? s.over("abc", 2) : s.coin(1, 200) ? s.blob(s.edge_len(6000), "key ") : s.utf8(6); }
inline JV jgen(pbt::Src &s, int depth, bool floats = true) {
  int k = (int)s.choose(depth > 0 ? 9 : 6);
  switch (k) {
    case 0: return JV();
    case 1: return JV::of(s.coin());
    case 2: return JV::of(s.i64());
    case 3: if (floats) return JV::of(s.finite()); return JV::of((int64_t)s.range(-3, 3));
    case 4: return JV::of(s.utf8(12));
    case 5: if (s.coin(1, 120)) { std::string r = s.blob(s.edge_len(20000), "abcdefgh \"\\/\n"), u; pbt::utf8_append(u, s.codepoint()); return JV::of(s.coin() ? r + u : u + r); } return JV::of(s.coin(1, 12) ? s.utf8(700) : s.utf8(30));
    case 6: case 7: { JV r = JV::arr(); if (s.coin(1, 150)) { size_t n = s.edge_len(1500); for (size_t i = 0; i < n; i++) r.a.push_back(JV::of((int64_t)i)); return r; } size_t n = s.size(8); for (size_t i = 0; i < n; i++) r.a.push_back(jgen(s, depth - 1, floats)); return r; }
    default: { JV r = JV::obj(); if (s.coin(1, 150)) { size_t n = s.edge_len(1100); for (size_t i = 0; i < n; i++) r.o["k" + std::to_string(i)] = JV::of((int64_t)i); return r; } size_t n = s.size(6); for (size_t i = 0; i < n; i++) { std::string key = jgen_key(s); r.o[key] = jgen(s, depth - 1, floats); } return r; }
  }
}
// ---- conversion to and from the library ----
typedef pfi::text::json::json PJ;
inline PJ to_pfi(const JV &v) {
  using namespace pfi::text::json;
  switch (v.k) {
    case JV::Null: return PJ();
    case JV::Bool: return PJ(new json_bool(v.b));
    case JV::Int: return PJ(new json_integer(v.i));
    case JV::Float: return PJ(new json_float(v.d));
    case JV::Str: return PJ(new json_string(v.s));
    case JV::Arr: { PJ r(new json_array()); for (auto &x : v.a) r.add(to_pfi(x)); return r; }
    default: { PJ r(new json_object()); for (auto &x : v.o) r.add(x.first, to_pfi(x.second)); return r; }
  }
}
inline JV from_pfi(const PJ &j) {
  using namespace pfi::text::json;
  switch (j.type()) {
    case PJ::Null: return JV();
    case PJ::Bool: return JV::of(json_cast<bool>(j));
    case PJ::Integer: return JV::of((int64_t)json_cast<int64_t>(j));
    case PJ::Float: return JV::of(json_cast<double>(j));
    case PJ::String: return JV::of(json_cast<std::string>(j));
    case PJ::Array: { JV r = JV::arr(); for (size_t i = 0; i < j.size(); i++) r.a.push_back(from_pfi(j[i])); return r; }
    default: { JV r = JV::obj(); size_t n = 0; for (PJ::const_iterator it = j.begin(); it != j.end(); ++it) { r.o[it->first] = from_pfi(it->second); n++; }
      CHECK(n == j.size() && n == r.o.size(), "object reports size " << j.size() << " but has " << n << " members, " << r.o.size() << " distinct"); return r; }
  }
}
// what a value becomes after being written with 12 significant digits
inline JV after_print(const JV &v) {
  JV r = v;
  if (v.k == JV::Float) {
    char b[64]; snprintf(b, sizeof b, "%.12g", v.d);
    bool fl = strpbrk(b, ".eE") != nullptr;
    if (fl) r = JV::of(strtod(b, nullptr)); else r = JV::of((int64_t)strtoll(b, nullptr, 10));
  }
  for (auto &x : r.a) x = after_print(x);
  for (auto &x : r.o) x.second = after_print(x.second);
  return r;
}
inline bool has_tiny(const JV &v) {   // a denormal or underflowing float
  if (v.k == JV::Float && v.d != 0 && std::fabs(v.d) < 2.3e-308) return true;
  for (auto &x : v.a) if (has_tiny(x)) return true;
  for (auto &x : v.o) if (has_tiny(x.second)) return true;
  return false;
}
#endif
