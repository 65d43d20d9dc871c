#include "pbt.h"
#include <memory>
#include <sstream>
#include <data/string/ustring.h>
using namespace pbt;
using namespace pfi::data::string;
// independent decoder: a piece is a scalar value, or (bad) a stray byte / a lead byte with the
// continuation bytes that follow it up to its announced length
struct Piece { bool ok; uint32_t cp; size_t at, len; };
static std::vector<Piece> pieces(const std::string &s) {
  std::vector<Piece> r; size_t i = 0;
  while (i < s.size()) {
    unsigned b = (unsigned char)s[i]; size_t n = b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : b < 0xFE ? 6 : 0;
    if (n == 0) { r.push_back({false, 0, i, 1}); i++; continue; }
    if (n == 1) { r.push_back({true, b, i, 1}); i++; continue; }
    uint32_t v = b & (0x7Fu >> n); size_t k = 1;
    while (k < n && i + k < s.size() && ((unsigned char)s[i + k] >> 6) == 2) { v = (v << 6) | (s[i + k] & 0x3F); k++; }
    bool ok = k == n && n <= 4 && v <= 0x10FFFF && !(v >= 0xD800 && v < 0xE000) && !(n == 2 && v < 0x80) && !(n == 3 && v < 0x800) && !(n == 4 && v < 0x10000);
    r.push_back({ok, v, i, k}); i += k;
  }
  return r;
}
static std::string enc(const std::vector<uint32_t> &v) { std::string r; for (uint32_t x : v) utf8_append(r, x); return r; }
static std::string su(const ustring &u) { std::ostringstream o; o << std::hex; for (uchar x : u) o << "U+" << x << " "; return o.str(); }
static std::vector<uint32_t> vec(const ustring &u) { return std::vector<uint32_t>(u.begin(), u.end()); }

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
template <class I> static uchar old_reader(I &i) { return chars_to_uchar(i); }
struct Recorder : fallback_base { std::string got; int n = 0; uchar fallback(const std::string &b, const char *hint) override { got = b; n++; if (!hint || !*hint) got += "(no reason given)"; return 0x41; } };
static void scalars(Src &s, Ctx &c) {
  std::vector<uint32_t> v; size_t n = s.size(40); for (size_t i = 0; i < n; i++) v.push_back(s.codepoint());
  if (s.coin(1, 40)) { size_t m = s.edge_len(9000); uint64_t x = s.choose(1000000); unsigned sh = (unsigned)s.choose(5) * 4; for (size_t i = 0; i < m; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; uint32_t y = (uint32_t)((x >> 40) % 0x10F800) >> sh; v.push_back(y >= 0xD800 ? y + 0x800 : y); } c.label("long text"); }
  ustring u(v.begin(), v.end()); std::string want = enc(v);
  bool multi = false; for (uint32_t x : v) multi |= x >= 0x80; c.nt(multi); NOTE("code points " << su(u));
  std::string got = ustring_to_string(u);
  CHECK(got == want, "UTF-8 is " << show(got) << ", not " << show(want));
  CHECK(vec(string_to_ustring(got)) == v, "back: " << su(string_to_ustring(got)));
  { std::unique_ptr<char[]> b(new char[got.size() + 1]); memcpy(b.get(), got.data(), got.size()); b[got.size()] = 0;
    std::unique_ptr<char[]> x(new char[got.size()]); memcpy(x.get(), got.data(), got.size());
    CHECK(vec(string_to_ustring(x.get(), got.size())) == v, "back (pointer, length): " << su(string_to_ustring(x.get(), got.size())));
    if (got.find('\0') == std::string::npos) CHECK(vec(string_to_ustring(b.get())) == v, "back (C string)");
    if (!v.empty() && v[0]) CHECK(string_to_uchar(b.get()) == v[0], "first character of the C string"); }
  CHECK(check_utf8(got), "valid UTF-8 refused by check_utf8");
  if (!v.empty()) CHECK(string_to_uchar(got) == v[0], "first character");
  std::string cat; for (uint32_t x : v) cat += uchar_to_string(x); CHECK(cat == want, "character by character: " << show(cat));
  std::ostringstream os; os << u; CHECK(os.str() == want, "stream output " << show(os.str()));
  { std::string::const_iterator i = got.begin(); size_t k = 0; exception_fallback fb;
    while (i != got.end()) { std::string::const_iterator j = i; uchar a = chars_to_uchar(i, got.cend()); uchar b = chars_to_uchar(j, got.cend(), fb); if (k < 60) { std::string::const_iterator l = got.begin() + (j - got.begin() - (long)uchar_to_string(a).size()); uchar d = old_reader(l); CHECK(d == a && l == j, "reader without an end: character " << k); } CHECK(k < v.size() && a == v[k] && b == v[k] && i == j, "reader: character " << k); k++; } CHECK(k == v.size(), "reader: " << k << " characters"); }
  { const std::string none; std::string::const_iterator i = none.begin(); exception_fallback ex; replacement_fallback rf('?'); CHECK(chars_to_uchar(i, none.end()) == 0 && chars_to_uchar(i, none.end(), ex) == 0 && chars_to_uchar(i, none.end(), rf) == 0 && i == none.end() && string_to_uchar(none) == 0 && string_to_ustring(none).empty() && ustring_to_string(ustring()).empty(), "the empty text"); }
  { std::unique_ptr<uchar[]> w(new uchar[v.size()]); std::copy(v.begin(), v.end(), w.get()); CHECK(vec(ustring(w.get(), v.size())) == v, "made from a pointer and a length"); std::vector<uint32_t> z(v.begin(), std::find(v.begin(), v.end(), 0u)); std::unique_ptr<uchar[]> y(new uchar[z.size() + 1]); std::copy(z.begin(), z.end(), y.get()); y[z.size()] = 0; CHECK(vec(ustring(y.get())) == z, "made from a pointer");
    size_t pos = s.choose(v.size() + 1), len = s.choose(v.size() + 3); std::vector<uint32_t> part(v.begin() + pos, v.begin() + std::min(v.size(), pos + len)); CHECK(vec(ustring(u, pos, len)) == part, "part " << pos << "," << len); CHECK(vec(ustring(u, pos)) == std::vector<uint32_t>(v.begin() + pos, v.end()), "tail from " << pos); uint32_t q = s.codepoint(); CHECK(vec(ustring(len, q)) == std::vector<uint32_t>(len, q), len << " times U+" << std::hex << q); CHECK(vec(ustring(std::basic_string<uchar>(u))) == v && vec(ustring(u)) == v, "copy"); }
  // words from a stream
  bool ws = false; for (uint32_t x : v) ws |= x < 0x80 && (x == ' ' || (x >= 9 && x <= 13));
  if (!ws && !v.empty()) { std::istringstream is(got + " rest"); ustring r; is >> r; CHECK(vec(r) == v, "stream input " << su(r)); }
}
static void damaged(Src &s, Ctx &c) {
  std::string t;
  if (s.coin(1, 4)) t = s.bytes(30);
  else {
    size_t n = 1 + s.size(10);
    for (size_t i = 0; i < n; i++) switch (s.choose(9)) {
      case 0: t += s.over("ab", 3); break;
      case 1: utf8_append(t, s.codepoint()); break;
      case 2: { std::string x; utf8_append(x, 0x80 + (uint32_t)s.choose(0x10ff80)); t += x.substr(0, s.choose(x.size())); c.label("truncated sequence"); break; }
      case 3: t += (char)(0x80 + s.choose(64)); c.label("stray continuation"); break;
      case 4: t += (char)(0xF8 + s.choose(8)); c.label("impossible lead"); break;
      case 5: { uint32_t v = (uint32_t)s.choose(0x800); t += (char)(0xE0 | v >> 12); t += (char)(0x80 | (v >> 6 & 63)); t += (char)(0x80 | (v & 63)); c.label("overlong 3"); break; }
      case 6: { uint32_t v = s.coin() ? (uint32_t)s.choose(0x10000) : 0x110000 + (uint32_t)s.choose(0xF0000); if (s.coin(1, 3)) v = s.pick<uint32_t>({0x10FFFF, 0x110000, 0x10000, 0xFFFF}); t += (char)(0xF0 | v >> 18); t += (char)(0x80 | (v >> 12 & 63)); t += (char)(0x80 | (v >> 6 & 63)); t += (char)(0x80 | (v & 63)); c.label("4-byte out of range"); break; }
      case 7: { uint32_t v = s.coin(1, 3) ? s.pick<uint32_t>({0xD7FF, 0xD800, 0xDFFF, 0xE000}) : 0xD800 + (uint32_t)s.choose(0x800); t += (char)(0xE0 | v >> 12); t += (char)(0x80 | (v >> 6 & 63)); t += (char)(0x80 | (v & 63)); c.label("surrogate"); break; }
      default: { uint32_t v = (uint32_t)s.choose(0x80); t += (char)(0xC0 | v >> 6); t += (char)(0x80 | (v & 63)); c.label("overlong 2"); }
    }
  }
  NOTE("bytes " << show(t));
  std::vector<Piece> ps = pieces(t); bool valid = true; ustring want; std::string keep;
  for (auto &p : ps) { valid = valid && p.ok; want.push_back(p.ok ? p.cp : 0xFFFD); if (p.ok && p.cp >= 0x20 && p.cp != 0xFFFE && p.cp != 0xFFFF) keep.append(t, p.at, p.len); }
  c.nt(!valid);
  CHECK(check_utf8(t) == valid, "check_utf8 says " << !valid);
  std::unique_ptr<char[]> x(new char[t.size()]); memcpy(x.get(), t.data(), t.size());
  ustring a = string_to_ustring(x.get(), t.size()), b = string_to_ustring(t);
  CHECK(a == want, "conversion gives " << su(a) << ", not " << su(want)); CHECK(b == want, "string conversion gives " << su(b) << ", not " << su(want));
  // readers, with the three fallbacks
  const char *p = x.get(), *e = p + t.size(); size_t k = 0;
  while (p != e) {
    const char *q0 = p, *q1 = p, *q2 = p; exception_fallback ex; replacement_fallback rf('?'); bool threw = false; uchar u1 = 0;
    uchar u0 = chars_to_uchar(q0, (const char *)e); try { u1 = chars_to_uchar(q1, (const char *)e, ex); } catch (const std::invalid_argument &) { threw = true; }
    uchar u2 = chars_to_uchar(q2, (const char *)e, rf);
    CHECK(k < ps.size(), "reader runs past the end");
    { const char *q3 = p; Recorder rec; uchar u3 = chars_to_uchar(q3, (const char *)e, rec); CHECK(q3 == q0 && rec.n == (ps[k].ok ? 0 : 1), "a user fallback is called " << rec.n << " times for piece " << k); if (!ps[k].ok) CHECK(u3 == 0x41 && rec.got == t.substr(ps[k].at, ps[k].len), "a user fallback is given " << show(rec.got) << " for piece " << k); } CHECK(threw == !ps[k].ok, "exception for piece " << k << ": " << threw);
    if (ps[k].ok) CHECK(u0 == ps[k].cp && u1 == u0 && u2 == u0, "piece " << k << " reads as " << u0); else CHECK(u0 == 0xFFFD && u2 == '?', "bad piece " << k << " reads as " << u0 << "/" << u2);
    CHECK(q0 == x.get() + ps[k].at + ps[k].len && q2 == q0, "reader stops at byte " << (q0 - x.get())); p = q0; k++;
  }
  std::string san = sanitize_utf8(t), san2; for (auto &q : pieces(san)) { CHECK(q.ok && q.cp >= 0x20, "sanitize_utf8 leaves " << show(san)); if (q.cp != 0xFFFE && q.cp != 0xFFFF) san2.append(san, q.at, q.len); }
  CHECK(san2 == keep, "sanitize_utf8 gives " << show(san) << ", not " << show(keep));
}
static void widths(Src &s, Ctx &c) {
  static const uint32_t kata[] = {0x3002, 0x300c, 0x300d, 0x3001, 0x30fb, 0x30f2, 0x30a1, 0x30a3, 0x30a5, 0x30a7, 0x30a9, 0x30e3, 0x30e5, 0x30e7, 0x30c3, 0x30fc, 0x30a2, 0x30a4, 0x30a6, 0x30a8, 0x30aa, 0x30ab, 0x30ad, 0x30af, 0x30b1, 0x30b3, 0x30b5, 0x30b7, 0x30b9, 0x30bb, 0x30bd, 0x30bf, 0x30c1, 0x30c4, 0x30c6, 0x30c8, 0x30ca, 0x30cb, 0x30cc, 0x30cd, 0x30ce, 0x30cf, 0x30d2, 0x30d5, 0x30d8, 0x30db, 0x30de, 0x30df, 0x30e0, 0x30e1, 0x30e2, 0x30e4, 0x30e6, 0x30e8, 0x30e9, 0x30ea, 0x30eb, 0x30ec, 0x30ed, 0x30ef, 0x30f3};   // U+FF61..FF9D
  bool half = true; ustring u; size_t n = s.size(12);
  for (size_t i = 0; i < n; i++) switch (s.choose(6)) {
    case 0: u.push_back(0x20 + (uint32_t)s.choose(0x5f)); break;
    case 1: u.push_back(0xFF61 + (uint32_t)s.choose(0x3d)); break;
    case 2: u.push_back(s.coin() ? 0xFF9E : 0xFF9F); break;
    case 3: u.push_back(0xFF01 + (uint32_t)s.choose(0x5e)); break;
    case 4: u.push_back(s.pick<uint32_t>({'-', 0x3000, 0x20, 0x30a1 + (uint32_t)s.choose(0x56), 0x3042, 0x4e00})); break;
    default: { uint32_t x = s.coin(1, 3) ? s.pick<uint32_t>({0x7f, 0x80, 0x303f, 0x3040, 0x309f, 0x30a0, 0x30ff, 0x3100, 0x4dff, 0x4e00, 0x9fff, 0xa000, 0xff00, 0xff5f, 0xff60, 0xffa0, '/', ':', '@', '[', '`', '{'}) : s.codepoint(); u.push_back(x); if (x == 0xFF60) half = false; }
  }
  NOTE("text " << su(u)); c.nt(n > 1);
  // full-width Latin
  ustring z = basic_latin_to_zenkaku_latin(u), b = zenkaku_latin_to_basic_latin(u);
  CHECK(z.size() == u.size() && b.size() == u.size(), "length changed");
  for (size_t i = 0; i < u.size(); i++) {
    uint32_t x = u[i], wz = x >= 0x21 && x <= 0x7e ? x + 0xfee0 : x == 0x20 ? 0x3000 : x, wb = x >= 0xff01 && x <= 0xff5e ? x - 0xfee0 : x == 0x3000 ? 0x20 : x;
    CHECK(z[i] == wz && basic_latin_to_zenkaku_latin((uchar)x) == wz, "full width of U+" << std::hex << x << " is U+" << z[i]); CHECK(b[i] == wb && zenkaku_latin_to_basic_latin((uchar)x) == wb, "basic form of U+" << std::hex << x << " is U+" << b[i]);
    CHECK(is_basic_latin(x) == (x < 0x80) && is_hiragana(x) == (x >= 0x3040 && x <= 0x309f) && is_katakana(x) == (x >= 0x30a0 && x <= 0x30ff) && is_kanji(x) == (x >= 0x4e00 && x <= 0x9fff) && is_hankaku(x) == (x >= 0xff60 && x <= 0xff9f), "character class of U+" << std::hex << x);
    CHECK(is_alnum(x) == (x < 0x80 && isalnum((int)x)), "is_alnum U+" << std::hex << x);
  }
  if (!half) return;   // U+FF60 is not half-width katakana although is_hankaku says so
  // half-width katakana with (semi-)voiced marks
  ustring w; bool skip = false;
  for (size_t i = 0; i < u.size(); i++) {
    uint32_t x = u[i], last = w.empty() ? 0 : w[w.size() - 1];
    if (x >= 0xFF61 && x <= 0xFF9D) w.push_back(kata[x - 0xFF61]);
    else if (x == 0xFF9E) {
      static const uint32_t d[] = {0x30ab, 0x30ad, 0x30af, 0x30b1, 0x30b3, 0x30b5, 0x30b7, 0x30b9, 0x30bb, 0x30bd, 0x30bf, 0x30c1, 0x30c4, 0x30c6, 0x30c8, 0x30cf, 0x30d2, 0x30d5, 0x30d8, 0x30db};
      bool f = false; for (uint32_t y : d) f |= y == last;
      if (f) w[w.size() - 1] = last + 1; else if (last == 0x30a6) w[w.size() - 1] = 0x30f4; else if (last == 0x30f2) w[w.size() - 1] = 0x30fa;
      else { if (last >= 0x30ef && last <= 0x30f1) skip = true; w.push_back(0x3099); }
    } else if (x == 0xFF9F) { bool f = last == 0x30cf || last == 0x30d2 || last == 0x30d5 || last == 0x30d8 || last == 0x30db; if (f) w[w.size() - 1] = last + 2; else w.push_back(0x309a); }
    else if (x == '-') w.push_back(!w.empty() && last >= 0x80 ? 0x30fc : '-');
    else w.push_back(x);
  }
  if (!skip) { ustring h = hankaku_to_zenkaku(u); CHECK(h == w, "hankaku_to_zenkaku gives " << su(h) << ", not " << su(w)); }
}
Suite pbt::suite() {
  Suite u; u.property = "C10";
  u.rule = "random scalar-value sequences (all encoding lengths and boundaries) through every conversion in both directions; byte strings damaged in every way UTF-8 can be (truncated, stray, overlong, surrogate, out of range, random bytes) compared piece by piece with an independent decoder; half/full-width conversions against the Unicode mapping; non-trivial = a multi-byte character / not valid UTF-8 / two or more characters";
  u.props = {{"scalars", scalars, 60000, 1500000, true}, {"damaged", damaged, 80000, 2000000, true}, {"widths", widths, 30000, 500000, true}};
  return u;
}
