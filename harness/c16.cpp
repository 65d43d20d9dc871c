#include "pbt.h"
#include <deque>
#include <limits>
#include <map>
#include <data/string/algorithm.h>
#include <data/string/ustring.h>
using namespace pbt;
using namespace pfi::data::string;
template <class T> static std::string sv(const T &v) { std::ostringstream o; for (auto &x : v) o << +x << " "; return o.str(); }
// exhaustive definitions for short sequences: LCS by subset enumeration, distance by breadth over (i,j) shortest path
static int ref_lcs(const std::vector<int> &a, const std::vector<int> &b) {   // a has at most 12 elements
  int best = 0;
  for (unsigned m = 0; m < (1u << a.size()); m++) { int n = __builtin_popcount(m); if (n <= best) continue; size_t j = 0; bool ok = true; for (size_t i = 0; i < a.size() && ok; i++) if (m >> i & 1) { while (j < b.size() && b[j] != a[i]) j++; if (j == b.size()) ok = false; else j++; } if (ok) best = n; }
  return best;
}
static int ref_dist(const std::vector<int> &a, const std::vector<int> &b) { // diagonal search: furthest reaching points, independent of the table method
  int n = (int)a.size(), m = (int)b.size();
  auto slide = [&](int i, int d) { while (i < n && i + d < m && a[i] == b[i + d]) i++; return i; };
  std::map<int, int> cur; cur[0] = slide(0, 0); if (n == m && cur[0] == n) return 0;
  for (int e = 1;; e++) {
    std::map<int, int> nx; auto put = [&](int d, int i) { if (i < 0 || i > n || i + d < 0 || i + d > m) return; i = slide(i, d); auto it = nx.find(d); if (it == nx.end() || it->second < i) nx[d] = i; };
    for (auto &p : cur) { put(p.first, p.second + 1); put(p.first - 1, p.second + 1); put(p.first + 1, p.second); put(p.first, p.second); }
    cur.swap(nx); auto it = cur.find(m - n); if (it != cur.end() && it->second >= n) return e;
  }
}
static std::vector<int> seq(Src &s, size_t max, int alpha) { std::vector<int> v; size_t n = s.size(max); for (size_t i = 0; i < n; i++) v.push_back((int)s.choose(alpha)); return v; }
static void lcs(Src &s, Ctx &c) {
  int al = (int)s.pick<int>({1, 2, 3, 5, 200}); std::vector<int> a = seq(s, 11, al), b = seq(s, 16, al); NOTE("a " << sv(a) << "b " << sv(b)); c.nt(a.size() > 1 && b.size() > 1);
  int w = ref_lcs(a, b), g = longest_common_subsequence(a, b), g2 = longest_common_subsequence(b, a); CHECK(g == w, "longest common subsequence " << g << ", not " << w); CHECK(g2 == w, "exchanged: " << g2);
  std::string x(a.begin(), a.end()), y(b.begin(), b.end()); CHECK(longest_common_subsequence(x, y) == w, "on strings"); ustring ux(a.begin(), a.end()), uy(b.begin(), b.end()); CHECK(longest_common_subsequence(ux, uy) == w, "on code points");
}
static std::vector<int> lseq(Src &s, size_t max, int alpha) { std::vector<int> v; size_t n = s.edge_len(max); uint32_t x = (uint32_t)s.choose(100000); for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; v.push_back((int)((x >> 12) % (unsigned)alpha)); } return v; }
// longest common subsequence by its own recurrence on the edit graph without substitutions: |a|+|b|-2*lcs is the insert/delete distance (furthest-reaching diagonals)
static int indel(const std::vector<int> &a, const std::vector<int> &b) {
  int n = (int)a.size(), m = (int)b.size(); std::map<int, int> cur; auto slide = [&](int i, int d) { while (i < n && i + d < m && a[i] == b[i + d]) i++; return i; };
  cur[0] = slide(0, 0); if (n == m && cur[0] == n) return 0;
  for (int e = 1;; e++) { std::map<int, int> nx; for (auto &p : cur) { int d = p.first, i = p.second; if (i < n) { int k = slide(i + 1, d - 1); auto &r = nx.emplace(d - 1, k).first->second; r = std::max(r, k); } if (i + d < m) { int k = slide(i, d + 1); auto &r = nx.emplace(d + 1, k).first->second; r = std::max(r, k); } } cur.swap(nx); auto it = cur.find(m - n); if (it != cur.end() && it->second >= n) return e; }
}
static void longer(Src &s, Ctx &c) {
  int al = (int)s.pick<int>({1, 2, 3, 5, 200}); std::vector<int> a = lseq(s, 400, al), b = lseq(s, 400, al); if (s.coin()) { b = a; for (size_t k = s.choose(6); k--;) { size_t p = s.choose(b.size() + 1); if (s.coin()) b.insert(b.begin() + p, (int)s.choose(al)); else if (p < b.size()) b.erase(b.begin() + p); } }
  NOTE("lengths " << a.size() << " " << b.size() << " alphabet " << al); c.nt(a.size() > 15 && b.size() > 15);
  int g = longest_common_subsequence(a, b), w = ((int)a.size() + (int)b.size() - indel(a, b)) / 2; CHECK(g == w, "longest common subsequence " << g << ", not " << w); CHECK(longest_common_subsequence(b, a) == w, "exchanged");
  int e = edit_distance(a, b), we = ref_dist(a, b); CHECK(e == we, "edit distance " << e << ", not " << we); CHECK(edit_distance(b, a) == we, "distance exchanged");
}
static void dist(Src &s, Ctx &c) {
  int al = (int)s.pick<int>({1, 2, 3, 5, 200}); std::vector<int> a = seq(s, 40, al), b = seq(s, 40, al);
  if (s.coin()) { b = a; size_t k = s.choose(6); for (size_t i = 0; i < k; i++) { size_t p = s.choose(b.size() + 1); switch (s.choose(3)) { case 0: b.insert(b.begin() + p, (int)s.choose(al)); break; case 1: if (p < b.size()) b.erase(b.begin() + p); break; default: if (p < b.size()) b[p] = (int)s.choose(al); } } c.label("few edits apart"); }
  NOTE("a " << sv(a) << "b " << sv(b)); c.nt(a.size() > 1 && b.size() > 1 && a != b); int w = ref_dist(a, b), g = edit_distance(a, b);
  CHECK(g == w, "edit distance " << g << ", not " << w); CHECK(edit_distance(b, a) == w, "exchanged: " << edit_distance(b, a));
  std::string x(a.begin(), a.end()), y(b.begin(), b.end()); CHECK(edit_distance(x, y) == w, "on strings"); ustring ux(a.begin(), a.end()), uy(b.begin(), b.end()); CHECK(edit_distance(ux, uy) == w, "on code points"); CHECK(edit_distance(a, a) == 0, "distance to itself");
}
template <class T> static int ref_lis(const std::vector<T> &v) { std::vector<int> d(v.size(), 1); int best = 0; for (size_t i = 0; i < v.size(); i++) { for (size_t j = 0; j < i; j++) if (v[j] < v[i]) d[i] = std::max(d[i], d[j] + 1); best = std::max(best, d[i]); } return best; }
template <class T> static void lis1(const std::vector<T> &v) { int w = ref_lis(v), g = longest_increasing_subsequence(v); CHECK(g == w, "longest increasing subsequence " << g << ", not " << w << " of " << sv(v)); std::deque<T> d(v.begin(), v.end()); CHECK(longest_increasing_subsequence(d) == w, "on a deque"); }
static void lis(Src &s, Ctx &c) {
  if (s.coin(1, 40)) { std::vector<int> v = lseq(s, 1500, s.pick<int>({3, 50, 100000})); if (s.coin(1, 3)) for (size_t i = 0; i < v.size(); i++) v[i] += (int)i * 3; c.nt(); NOTE(v.size() << " numbers"); lis1(v); return; }
  if (s.coin(1, 100)) { std::vector<int> v; for (size_t k = 1 + s.choose(6); k--;) { int at = (int)s.choose(3000), step = 1 + (int)s.choose(4), len = (int)s.edge_len(700); for (int i = 0; i < len; i++) v.push_back(at += s.coin(1, 50) ? -3 : step); } c.nt(v.size() > 2); c.label("runs"); NOTE(v.size() << " numbers in runs"); lis1(v); return; }
  size_t n = s.size(40); int t = (int)s.choose(6); c.nt(n > 2);
  switch (t) {
    case 0: { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)s.choose(12)); NOTE(sv(v)); lis1(v); break; }
    case 1: { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(s.coin(1, 3) ? s.pick<int>({INT_MAX, INT_MIN, INT_MAX - 1, 0, -1}) : (int)s.i64()); NOTE(sv(v)); c.label("extreme ints"); lis1(v); break; }
    case 2: { std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(s.coin() ? (double)s.range(-20, 20) / 8 : s.finite()); NOTE(sv(v)); c.label("reals"); lis1(v); break; }
    case 3: { std::vector<long long> v; for (size_t i = 0; i < n; i++) v.push_back(s.i64()); NOTE(sv(v)); c.label("64 bit"); lis1(v); break; }
    case 4: { std::vector<unsigned> v; for (size_t i = 0; i < n; i++) v.push_back((unsigned)s.uedge(32)); NOTE(sv(v)); c.label("unsigned"); lis1(v); break; }
    default: { std::vector<char> v; for (size_t i = 0; i < n; i++) v.push_back((char)s.choose(256)); NOTE(sv(v)); c.label("chars"); std::string x(v.begin(), v.end()); int w = ref_lis(v); CHECK(longest_increasing_subsequence(x) == w, "on a string"); }
  }
}
Suite pbt::suite() {
  Suite u; u.property = "C16";
  u.rule = "random pairs of short sequences over small and large alphabets (also a few edits apart): LCS against enumeration of all subsequences, edit distance against a furthest-reaching-diagonal search (both also on sequences up to 400), LIS over int (extremes), 64-bit, unsigned, char and real elements against the quadratic definition; non-trivial = both of 2+ elements / 3+ elements";
  u.props = {{"lcs", lcs, 30000, 300000, true}, {"distance", dist, 30000, 300000, true}, {"lis", lis, 60000, 600000, true}, {"longer", longer, 2500, 50000, false}};
  return u;
}
