#include "pbt.h"
#include <algorithm>
#include <memory>
#include <set>
#include <data/string/aho_corasick.h>
#include <data/string/kmp.h>
#include <data/string/ustring.h>
using namespace pbt;
using pfi::data::string::aho_corasick; using pfi::data::string::kmp;
typedef std::vector<std::pair<int, int>> Res;
static std::string word(Src &s, int mode, size_t max) {
  std::string r; size_t n = s.size(max);
  for (size_t i = 0; i < n; i++) r += mode == 0 ? (char)('a' + s.choose(2)) : mode == 1 ? s.ch("ab\0\377\200") : mode == 2 ? (char)s.choose(256) : (char)('a' + s.choose(26));
  return r;
}
static void naive(const std::vector<std::string> &w, const std::string &t, Res &r) { for (size_t i = 0; i < w.size(); i++) for (size_t p = 0; p + w[i].size() <= t.size(); p++) if (t.compare(p, w[i].size(), w[i]) == 0) r.push_back({(int)i, (int)(p + w[i].size())}); }
static void multi(Src &s, Ctx &c) {
  int mode = (int)s.choose(4); std::vector<std::string> w; std::set<std::string> seen; size_t n = s.size(s.coin(1, 10) ? 120 : 10); size_t wl = mode == 3 ? 5 : 8;
  for (size_t i = 0; i < n; i++) { std::string x = word(s, mode, wl); if (!w.empty() && s.coin(1, 4)) { const std::string &y = w[s.choose(w.size())]; x = s.coin() ? y.substr(s.choose(y.size())) : y + x; } if (x.size() && seen.insert(x).second) w.push_back(x); }
  if (s.coin(1, 12)) { std::string x = s.blob(1 + s.edge_len(1200), "ab"); size_t k = 1 + s.choose(3); for (size_t i = 0; i < k; i++) { std::string y = x.substr(s.choose(x.size())); if (seen.insert(y).second) w.push_back(y); } if (seen.insert(x).second) w.push_back(x); c.label("long word"); }
  std::string text; size_t parts = s.size(12); for (size_t i = 0; i < parts; i++) text += (!w.empty() && s.coin()) ? w[s.choose(w.size())] : word(s, mode, 10);
  { std::string ws; for (auto &x : w) ws += show(x, 40) + " "; NOTE("words " << ws.substr(0, 600)); NOTE("text " << show(text)); }
  aho_corasick ac(w); Res want; naive(w, text, want); std::sort(want.begin(), want.end());
  c.nt(want.size() > 1 && w.size() > 1); if (want.size() > 3) c.label("several occurrences");
  const aho_corasick copy(ac);
  for (int k = 0; k < 2; k++) {
    Res got; (k ? copy : ac).search(text, got); std::sort(got.begin(), got.end());
    if (got != want) { Res x, y; std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(x)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(y));
      FAIL((x.empty() ? "reports what is not there: word " : "misses word ") << (x.empty() ? (y.empty() ? -1 : y[0].first) : x[0].first) << " ending at " << (x.empty() ? (y.empty() ? -1 : y[0].second) : x[0].second) << "; " << got.size() << " reports, " << want.size() << " occurrences"); }
  }
  std::string t2 = word(s, mode, 20); Res w2, g2; naive(w, t2, w2); ac.search(t2, g2); std::sort(w2.begin(), w2.end()); std::sort(g2.begin(), g2.end()); CHECK(g2 == w2, "second search, in " << show(t2) << ": " << g2.size() << " reports, " << w2.size() << " occurrences");
}
static void big(Src &s, Ctx &c) {       // many words, fan-out over all byte values
  std::vector<std::string> w; std::set<std::string> seen; size_t n = 100 + s.choose(600); uint64_t x = s.u64() | 1; auto rnd = [&](unsigned k) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)(x % k); }; unsigned alpha = (unsigned)s.pick<int>({2, 4, 26, 256});
  for (size_t i = 0; i < n; i++) { std::string y; unsigned l = 1 + rnd(alpha == 2 ? 14 : 6); for (unsigned k = 0; k < l; k++) y += (char)(alpha == 256 ? rnd(256) : 'a' + rnd(alpha)); if (seen.insert(y).second) w.push_back(y); }
  std::string text; for (int i = 0; i < 200; i++) { if (rnd(2)) text += w[rnd((unsigned)w.size())]; else text += (char)(alpha == 256 ? rnd(256) : 'a' + rnd(alpha)); }
  NOTE(w.size() << " words over " << alpha << " letters"); c.nt(); Res want, got; naive(w, text, want); aho_corasick ac(w); ac.search(text, got); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  CHECK(got == want, got.size() << " reports, " << want.size() << " occurrences");
}
static void single(Src &s, Ctx &c) {
  int mode = (int)s.choose(3); std::string q = word(s, mode, 10), t = word(s, mode, 40); if (s.coin() && q.size()) { t.insert(s.choose(t.size() + 1), q); } if (s.coin(1, 4) && q.size()) { t.insert(s.choose(t.size() + 1), q.substr(0, s.choose(q.size()))); }
  if (s.coin(1, 12)) { q = s.blob(1 + s.edge_len(3000), s.coin() ? "a" : "ab"); if (s.coin()) q += s.ch("abc"); std::string pre = q.substr(0, s.coin() ? q.size() - 1 : s.choose(q.size())); t = word(s, 0, 10); for (size_t k = s.choose(4); k--;) t += pre; if (s.coin(2, 3)) t += q; t += word(s, 0, 10); c.label("long pattern"); }
  int off = s.coin() ? 0 : (int)s.choose(t.size() + 3); NOTE("pattern " << show(q) << " text " << show(t) << " from " << off);
  size_t want = t.find(q, (size_t)off); c.nt(q.size() > 1 && want != 0); if (want == std::string::npos) c.label("absent"); else c.label("present");
  { kmp<std::string> k(q); size_t g = k.find(t, off); CHECK(g == want, "found at " << (long)g << ", not " << (long)want); }
  { std::vector<int> vq(q.begin(), q.end()), vt(t.begin(), t.end()); kmp<std::vector<int>> k(vq); size_t g = k.find(vt, off); CHECK(g == want, "in vectors, found at " << (long)g << ", not " << (long)want); if (off == 0) CHECK(k.find(vt) == want, "without offset"); }
  { typedef pfi::data::string::ustring U; U uq(q.begin(), q.end()), ut(t.begin(), t.end()); kmp<U> k(uq); CHECK(k.find(ut, off) == want, "in code points"); }
}
Suite pbt::suite() {
  Suite u; u.property = "C15";
  u.rule = "random sets of distinct words (two-letter, full-byte, NUL and high bytes, suffixes and extensions of one another, up to 700 words) and texts assembled from them, all reports compared with naive search; random patterns, texts and offsets for the single-pattern matcher on strings, code-point strings and vectors compared with std find; non-trivial = 2+ words and 2+ occurrences / pattern of 2+ not at 0";
  u.props = {{"multi", multi, 40000, 800000, true}, {"big", big, 500, 20000, false}, {"single", single, 60000, 1000000, true}};
  u.assumptions = {"words are distinct and not empty"};
  return u;
}
