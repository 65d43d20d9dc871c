#include "pbt.h"
#include <stdexcept>
#include <data/encoding/base64.h>
using namespace pbt;
using namespace pfi::data::encoding;
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string refenc(const std::string &s) {       // bit by bit
  std::string r; size_t bits = s.size() * 8;
  for (size_t i = 0; i < bits; i += 6) { unsigned v = 0; for (size_t k = 0; k < 6; k++) { size_t b = i + k; v = v * 2 + (b < bits ? ((unsigned char)s[b / 8] >> (7 - b % 8)) & 1 : 0); } r += AL[v]; }
  while (r.size() % 4) r += '=';
  return r;
}
static int val(char c) { if (!c) return -1; const char *p = strchr(AL, c); return p ? (int)(p - AL) : -1; }
// complete, properly padded?
static bool well(const std::string &t) {
  if (t.size() % 4) return false;
  size_t n = t.size(), pad = 0; while (pad < 2 && pad < n && t[n - 1 - pad] == '=') pad++;
  for (size_t i = 0; i < n - pad; i++) if (val(t[i]) < 0) return false;
  return true;
}
static void roundtrip(Src &s, Ctx &c) {
  std::string b = s.coin(1, 20) ? s.bytes(3000) : s.coin(1, 60) ? s.blob(s.edge_len(140000)) : s.bytes(40);
  NOTE("bytes " << show(b)); c.nt(b.size() > 0); c.label(b.size() % 3 == 0 ? "no padding" : b.size() % 3 == 1 ? "==" : "=");
  std::string e = base64_encode(b);
  CHECK(e == refenc(b), "encoded " << show(e) << ", not " << show(refenc(b)));
  std::string d = base64_decode(e); CHECK(d == b, "decoded " << show(d));
}
static void junk(Src &s, Ctx &c) {
  std::string t;
  switch (s.choose(5)) {
    case 0: t = s.over("AQz0+/=", 24); break;
    case 1: { t = refenc(s.bytes(12)); size_t k = 1 + s.choose(2); for (size_t i = 0; i < k; i++) { size_t p = s.choose(t.size() + 1); switch (s.choose(4)) { case 0: t.insert(p, 1, s.ch("=A!\n -_\0z")); break; case 1: if (p < t.size()) t.erase(p, 1); break; case 2: if (p < t.size()) t[p] = s.ch("=A!\n -_.\0\377\200@[`{:"); break; default: if (p < t.size()) t[p] = (char)s.choose(256); } } break; }
    case 2: t = refenc(s.bytes(6)) + refenc(s.bytes(6)); break;
    case 3: if (s.coin(1, 10)) { t = refenc(s.blob(s.edge_len(5000))); if (!t.empty()) { size_t p = s.coin() ? s.choose(t.size()) : t.size() - 1 - s.choose(std::min<size_t>(t.size(), 8)); if (s.coin()) t[p] = s.ch("=A!\n-_"); else t.erase(p, 1 + s.choose(3)); } break; } t = s.bytes(12); break;
    default: t = s.bytes(12);
  }
  NOTE("text " << show(t)); bool w = well(t); c.nt(!w); c.label(w ? "well-formed" : t.size() % 4 ? "wrong length" : "malformed of right length");
  std::string d; bool threw = false;
  try { d = base64_decode(t); } catch (const std::exception &) { threw = true; }
  if (!w) { CHECK(threw, "accepted as " << show(d)); return; }
  CHECK(!threw, "refused although well formed");
  size_t pad = 0; while (pad < 2 && pad < t.size() && t[t.size() - 1 - pad] == '=') pad++;
  std::string want; unsigned acc = 0, nb = 0; for (size_t i = 0; i < t.size() - pad; i++) { acc = (acc << 6 | val(t[i])) & 0xffff; nb += 6; if (nb >= 8) { nb -= 8; want += (char)(acc >> nb); } }
  CHECK(d == want, "decoded " << show(d) << ", not " << show(want));
}
Suite pbt::suite() {
  Suite u; u.property = "C11";
  u.rule = "random byte strings (all lengths mod 3, up to 140000 bytes, around powers of two) against a bit-by-bit encoder and back; texts with misplaced padding, foreign characters, wrong lengths, concatenated encodings and random bytes against an independent well-formedness rule; non-trivial = non-empty input / malformed text";
  u.props = {{"roundtrip", roundtrip, 60000, 1500000, true}, {"junk", junk, 150000, 3000000, true}};
  u.assumptions = {"non-zero unused bits in the last character are accepted, as RFC 4648 allows"};
  return u;
}
