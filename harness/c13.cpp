#include "pbt.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <data/code/code.h>
using namespace pbt;
using namespace pfi::data::code;
struct It { int k; uint32_t v, p; };
static std::string shows(const It &i) { static const char *n[] = {"byte", "word", "gamma", "delta", "rice", "prefix"}; std::ostringstream o; o << n[i.k] << "(" << i.v << (i.k == 1 || i.k == 4 ? "," + std::to_string(i.p) : "") << ")"; return o.str(); }
static uint32_t num(Src &s) { return s.coin(1, 3) ? (uint32_t)s.choose(40) : (uint32_t)s.uedge(32); }
static std::vector<It> items(Src &s, size_t max) {
  std::vector<It> v; size_t n = s.size(max); bool longrun = s.coin(1, 60); bool only = s.coin(1, 3); int kind = (int)s.choose(6);
  for (size_t i = 0; i < n; i++) {
    It t; t.k = only ? kind : (int)s.choose(6); t.v = num(s); t.p = 0;
    if (t.k == 0) t.v &= 255;
    if (t.k == 1) { t.p = (uint32_t)s.choose(33); }
    if (t.k == 2 || t.k == 3) { if (!t.v) t.v = 1; }
    if (t.k == 4) { t.p = (uint32_t)s.choose(32); if (t.p == 0 && t.v == 0xffffffffu) t.v--; }
    v.push_back(t);
  }
  if (longrun && !v.empty()) { size_t m = s.coin(1, 12) ? 20000 + s.choose(40000) : s.edge_len(3000), b = v.size(); uint32_t x = (uint32_t)s.choose(100000); while (v.size() < m) { It t = v[(x >> 8) % b]; x = x * 1664525u + 1013904223u; if (t.k == 0) t.v = x >> 24; else if (t.k == 1) t.v = x; else if (t.k != 4) t.v = (x >> (x & 31)) | 1; v.push_back(t); } }
  return v;
}
static void put(encoder &e, const It &i) { switch (i.k) { case 0: e.byte((unsigned char)i.v); break; case 1: e.word_with_length(i.v, i.p); break; case 2: e.gamma(i.v); break; case 3: e.delta(i.v); break; case 4: e.rice(i.v, i.p); break; default: e.prefix_code(i.v); } }
static uint32_t get(decoder &d, const It &i) { switch (i.k) { case 0: return d.byte(); case 1: return d.word_with_length(i.p); case 2: return d.gamma(); case 3: return d.delta(); case 4: return d.rice(i.p); default: return d.prefix_code(); } }
static uint32_t want(const It &i) { return i.k == 1 && i.p < 32 ? i.v & ((1u << i.p) - 1) : i.v; }
static void all(decoder &d, const std::vector<It> &v, size_t from, const char *how) { for (size_t i = from; i < v.size(); i++) { uint32_t g = get(d, v[i]); CHECK(g == want(v[i]), "item " << i << " " << shows(v[i]) << " reads back as " << g << " (" << how << ")"); } }
static void mix(Src &s, Ctx &c) {
  encoder e; int rounds = 1 + (int)s.choose(2);       // an encoder is reusable after flush
  for (int r = 0; r < rounds; r++) {
    std::vector<It> v = items(s, 40); std::string txt; for (auto &i : v) txt += shows(i) + " "; NOTE("items " << txt.substr(0, 600));
    bool bitk = false, bytek = false; for (auto &i : v) { if (i.k == 0 || i.k == 5) bytek = true; else bitk = true; c.label(i.k == 0 ? "byte" : i.k == 1 ? "word" : i.k == 2 ? "gamma" : i.k == 3 ? "delta" : i.k == 4 ? "rice" : "prefix"); }
    c.nt(bitk && bytek && v.size() > 2);
    for (auto &i : v) put(e, i);
    std::vector<unsigned char> bytes = e.get_bytes(); std::vector<unsigned char> pad(bytes); pad.resize(bytes.size() + 8, s.coin() ? 0 : 0xff);   // the caller's buffer has 8 readable bytes behind the data
    if (bytes.size()) bytes.shrink_to_fit();
    decoder d; CHECK(!d.is_open(), "a new decoder is open");
    d.attach(pad.data()); CHECK(d.is_open(), "not open after attach"); all(d, v, 0, "buffer");
    d.seek(0); all(d, v, 0, "after seeking to the start");
    std::string as(bytes.begin(), bytes.end());
    if (s.coin() && !bytes.empty()) {
      std::string fn = std::string(getenv("PBT_TMP")) + "/code." + std::to_string(getpid());
      e.flush(fn); decoder f; CHECK(f.attach(fn) == 0, "attach to the file"); all(f, v, 0, "file"); ::unlink(fn.c_str()); CHECK(f.attach(fn) == -1, "attach to a missing file succeeds");
    } else if (!bytes.empty()) { std::ostringstream os; e.flush(os); CHECK(os.str() == as, "flush writes other bytes"); std::istringstream is(os.str()); d.attach(is, (int)os.str().size()); all(d, v, 0, "stream"); d.detach(); CHECK(!d.is_open(), "open after detach"); }
    CHECK(e.get_bytes().empty() || bytes.empty(), "bytes left after flush");
    if (bytes.empty()) break;
  }
}
// bit positions: the k-th item of a fixed-width array is where it must be
static void seekp(Src &s, Ctx &c) {
  uint32_t w = 1 + (uint32_t)s.choose(32); std::vector<uint32_t> v; size_t n = 1 + s.size(60); encoder e; for (size_t i = 0; i < n; i++) { v.push_back((uint32_t)s.uedge(32) & (w == 32 ? ~0u : (1u << w) - 1)); e.word_with_length(v.back(), w); }
  CHECK(e.get_bytes().size() == (n * w + 7) / 8, "encoded to " << e.get_bytes().size() << " bytes"); c.nt(n > 1); NOTE(n << " items of " << w << " bits");
  std::string as((char *)e.get_bytes().data(), e.get_bytes().size());
  for (size_t b = 0; b < n * w; b++) CHECK((((unsigned char)as[b / 8] >> (b % 8)) & 1) == (v[b / w] >> (b % w) & 1), "bit " << b << " of the encoding");
  std::istringstream is(as); decoder d; d.attach(is, (int)as.size());
  for (int k = 0; k < 10; k++) { size_t i = s.choose(n); d.seek((int)(i * w / 8), (int)(i * w % 8)); uint32_t g = d.word_with_length(w); CHECK(g == v[i], "item " << i << " after seek is " << g << " not " << v[i]); if (i + 1 < n) { g = d.word_with_length(w); CHECK(g == v[i + 1], "item after it is " << g); } }
}
// the code lengths are those of the Elias codes
static void lengths(Src &s, Ctx &c) {
  uint32_t v = num(s); if (!v) v = 1; uint32_t L = 32 - __builtin_clz(v), LL = 32 - __builtin_clz(L); c.nt(v > 1); NOTE("value " << v);
  { encoder e; e.gamma(v); CHECK(e.get_bytes().size() == (2 * L - 1 + 7) / 8, "gamma code of " << v << " takes " << e.get_bytes().size() << " bytes"); }
  { encoder e; e.delta(v); CHECK(e.get_bytes().size() == (2 * LL - 1 + L - 1 + 7) / 8, "delta code of " << v << " takes " << e.get_bytes().size() << " bytes"); }
  { encoder e; e.prefix_code(v); CHECK(e.get_bytes().size() == (L + 6) / 7, "prefix code of " << v << " takes " << e.get_bytes().size() << " bytes"); }
}
Suite pbt::suite() {
  Suite u; u.property = "C13";
  u.rule = "random sequences of bit-level and byte-level codes with edge-biased values and every parameter, written and read back through buffer, stream and file, an encoder reused after flushing; fixed-width arrays compared bit by bit and read by seeking; Elias code lengths; non-trivial = a mixture of bit and byte codes / several items";
  u.props = {{"mix", mix, 60000, 1500000, true}, {"seek", seekp, 15000, 300000, true}, {"lengths", lengths, 20000, 200000, false}};
  u.assumptions = {"gamma and delta codes take values from 1, Rice parameters are at most 31, words at most 32 bits; a buffer handed to the reader has eight readable bytes behind the data (it is read a word at a time)"};
  return u;
}
