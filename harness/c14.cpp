#include "pbt.h"
#include <cstdio>
#include <map>
#include <unistd.h>
#include <data/sparse_matrix/sparse_matrix.h>
#include <system/sysstat.h>
using namespace pbt;
using namespace pfi::data::sparse_matrix;
typedef std::vector<std::pair<int, unsigned char>> Row;
typedef std::vector<Row> Mat;
// the amount of free memory decides how many slices a transposition takes: the harness owns it
static long free_mem = -1; static bool no_stat;
extern "C" int __real__ZN3pfi6system7sysstat11get_sysstatERNS1_11sysstat_retE(pfi::system::sysstat::sysstat_ret &);
extern "C" int __wrap__ZN3pfi6system7sysstat11get_sysstatERNS1_11sysstat_retE(pfi::system::sysstat::sysstat_ret &r) {
  int x = __real__ZN3pfi6system7sysstat11get_sysstatERNS1_11sysstat_retE(r); if (no_stat) return -1; if (free_mem >= 0) { r.free_memory = (uint64_t)free_mem; x = 0; } return x;
}
struct Quiet { FILE *old, *n; Quiet() : old(stderr), n(fopen("/dev/null", "w")) { if (n) stderr = n; } ~Quiet() { stderr = old; if (n) fclose(n); } };
static std::string base() { return std::string(getenv("PBT_TMP")) + "/mat." + std::to_string(getpid()); }
struct Clean { std::vector<std::string> f; ~Clean() { for (auto &x : f) { ::unlink(x.c_str()); ::unlink((x + ".offset").c_str()); } } };
static std::string showr(const Row &r) { std::string t = "{"; for (auto &e : r) t += std::to_string(e.first) + ":" + std::to_string(e.second) + " "; return t + "}"; }
static Mat gen(Src &s, Ctx &c, int maxcol, size_t maxrow) {
  Mat m; size_t n = s.size(maxrow); if (s.coin(1, 500)) { size_t rows = 1 + s.choose(200); uint32_t x = (uint32_t)s.choose(100000); for (size_t i = 0; i < rows; i++) { Row r; int64_t col = -1; for (size_t j = 0; j < 800; j++) { x = x * 1664525u + 1013904223u; col += 1 + (x >> 28) % 3; if (col > maxcol) break; r.push_back({(int)col, (unsigned char)(1 + (x >> 8) % 255)}); } m.push_back(r); } c.label("a large file"); return m; } if (s.coin(1, 60)) { size_t k = s.edge_len(1100); uint32_t x = (uint32_t)s.choose(100000); for (size_t i = 0; i < k; i++) { Row r; x = x * 1664525u + 1013904223u; int col = (int)((x >> 20) % 5); for (unsigned q = 0; q < (x >> 28) % 4 && col <= maxcol; q++) { r.push_back({col, (unsigned char)(1 + (x >> 10) % 255)}); col += 1 + (int)((x >> (q + 3)) % 7); } m.push_back(r); } c.label("many rows"); } bool wide = maxcol > 1000;
  for (size_t i = 0; i < n; i++) {
    Row r; size_t k = s.size(8); int64_t col = -1;
    if (s.coin(1, 60)) { size_t m = s.edge_len(3000); uint32_t x = (uint32_t)s.choose(100000); for (size_t j = 0; j < m; j++) { x = x * 1664525u + 1013904223u; col += 1 + (x >> 16) % (wide ? 300 : 2); if (col > maxcol) break; r.push_back({(int)col, (unsigned char)(1 + (x >> 24) % 255)}); } m++; c.label("long row"); m = 0; }
    for (size_t j = 0; j < k; j++) { col += 1 + (int64_t)(wide ? s.pick<uint64_t>({s.choose(3), s.choose(200), s.uedge(20), s.uedge(30)}) : s.choose(4)); if (col > maxcol) break; r.push_back({(int)col, (unsigned char)(s.coin(1, 4) ? s.pick<int>({1, 127, 128, 255}) : 1 + s.choose(255))}); }
    if (r.empty()) c.label("empty row"); m.push_back(r);
  }
  return m;
}
static void put(sparse_matrix_writer &w, const std::string &fn, const Mat &m, Src &s, bool leave = false) {
  CHECK(w.open(fn) == 0, "open for writing");
  for (size_t i = 0; i < m.size(); i++) { if (s.coin()) w.append_row(m[i]); else w.append_row(std::map<int, unsigned char>(m[i].begin(), m[i].end())); CHECK(w.row_num() == (int)i + 1, "writer counts " << w.row_num() << " rows"); }
  if (!leave) w.close();
}
static void put(const std::string &fn, const Mat &m, Src &s) { sparse_matrix_writer w; put(w, fn, m, s); }
static void compare(sparse_matrix_reader &r, const Mat &m, Src &s, const char *what) {
  CHECK(r.row_num() == (int)m.size(), what << " has " << r.row_num() << " rows, not " << m.size());
  std::vector<size_t> order; for (size_t i = 0; i < m.size(); i++) order.push_back(i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.choose(i)]);
  for (size_t i : order) {
    CHECK(r.get_row_size((int)i) == (int)m[i].size() && r.get_row_nonzero_value_num((int)i) == (int)m[i].size(), what << ": size of row " << i << " is " << r.get_row_size((int)i));
    Row v(3, {7, 7}); r.get_row((int)i, v); CHECK(v == m[i], what << ": row " << i << " is " << showr(v) << " not " << showr(m[i]));
    std::map<int, unsigned char> mm; r.get_row((int)i, mm); CHECK(Row(mm.begin(), mm.end()) == m[i], what << ": row " << i << " as map is " << showr(Row(mm.begin(), mm.end())));
    pfi::data::unordered_map<int, unsigned char> um; r.get_row((int)i, um); std::map<int, unsigned char> o(um.begin(), um.end()); CHECK(um.size() == m[i].size() && Row(o.begin(), o.end()) == m[i], what << ": row " << i << " as hash map");
  }
}
static void store(Src &s, Ctx &c) {
  Quiet q; Clean cl; std::string f = base(); cl.f = {f, f + "b"};
  Mat a = gen(s, c, 2147483646, 12), b = gen(s, c, 2147483646, 6); size_t cells = 0; for (auto &r : a) cells += r.size(); c.nt(a.size() > 1 && cells > 1); NOTE(a.size() << " rows, " << cells << " entries; first " << (a.empty() ? "-" : showr(a[0])));
  if (s.coin()) { sparse_matrix_writer w; auto fail = [&] { if (s.coin(1, 3)) { CHECK(w.open(f + "-none/x") < 0, "writing into a directory that does not exist"); c.label("cannot be written"); } }; fail(); if (s.coin(1, 3)) w.append_row(Row{{1, 1}}); put(w, f, a, s, s.coin()); fail(); put(w, f + "b", b, s); c.label("one writer for both"); if (s.coin(1, 3)) w.append_row(Row{{1, 1}}); } else { put(f, a, s); put(f + "b", b, s); }
  sparse_matrix_reader r; CHECK(r.row_num() == 0 && r.get_row_size(0) == 0, "a reader that is not open has rows"); CHECK(r.open(f) == 0, "open for reading"); compare(r, a, s, "matrix"); { int past = (int)a.size() + (int)s.choose(3); Row v; r.get_row(past, v); std::map<int, unsigned char> mm; r.get_row(past, mm); pfi::data::unordered_map<int, unsigned char> um; r.get_row(past, um); CHECK(v.empty() && mm.empty() && um.empty() && r.get_row_size(past) <= 0 && r.get_row_nonzero_value_num(past) <= 0, "row " << past << " of " << a.size() << " has entries"); }
  if (s.coin()) { CHECK(r.open(f + "b") == 0, "reopen"); compare(r, b, s, "second matrix"); r.close(); CHECK(r.row_num() == 0, "rows after close"); CHECK(r.open(f) == 0, "open again"); compare(r, a, s, "matrix opened again"); }
  if (s.coin()) { put(f, b, s); sparse_matrix_reader r2; r2.open(f); compare(r2, b, s, "overwritten matrix"); }
  CHECK(r.open(f + "-none") < 0, "opening a missing matrix succeeds");
}
static void transpose(Src &s, Ctx &c) {
  Quiet q; Clean cl; std::string f = base(); cl.f = {f, f + "t", f + "tt"};
  Mat a = gen(s, c, s.coin(1, 10) ? 900 : 24, 10); Mat t; size_t cells = 0, lastcol = 0;
  for (size_t i = 0; i < a.size(); i++) for (auto &e : a[i]) { if ((int)t.size() <= e.first) t.resize(e.first + 1); t[e.first].push_back({(int)i, e.second}); cells++; lastcol = i; }
  free_mem = s.coin() ? -1 : (long)s.choose(20 * 12); if (free_mem >= 0 && cells > 100) free_mem += 20 * (long)(cells / 8); c.nt(cells > 2); if (free_mem >= 0 && (long)cells > free_mem / 20) c.label("transposed in several slices");
  NOTE(a.size() << " rows, " << cells << " entries, free memory " << free_mem); for (auto &r : a) NOTE(showr(r));
  put(f, a, s); CHECK(matrix_transpose(f, f + "t") == 0, "matrix_transpose fails");
  sparse_matrix_reader r; CHECK(r.open(f + "t") == 0, "open the transpose"); compare(r, t, s, "transpose");
  CHECK(matrix_transpose(f + "t", f + "tt") == 0, "matrix_transpose of the transpose fails");
  Mat a2 = a; if (cells) a2.resize(lastcol + 1); else a2.clear();
  sparse_matrix_reader r2; r2.open(f + "tt"); compare(r2, a2, s, "transpose of the transpose"); free_mem = -1;
  CHECK(matrix_transpose(f + "-none", f + "t") != 0, "transposing a missing matrix succeeds"); CHECK(matrix_transpose(f, f + "-none/x") != 0, "transposing into a directory that does not exist succeeds"); if (s.coin(1, 20)) { no_stat = true; int x = matrix_transpose(f, f + "t"); no_stat = false; if (x == 0) { sparse_matrix_reader r3; CHECK(r3.open(f + "t") == 0, "open the transpose"); compare(r3, t, s, "transpose"); } }
}
Suite pbt::suite() {
  Suite u; u.property = "C14";
  u.rule = "random matrices (empty rows, columns up to 2^31-2, values 1..255) written row by row as vector or map, closed, read back in random order through all row forms, files reopened and overwritten; random small matrices transposed (in one or several memory slices: the free-memory figure is injected) and transposed back, compared with a direct transpose; non-trivial = 2+ rows with 2+ entries";
  u.props = {{"store", store, 8000, 150000, true}, {"transpose", transpose, 8000, 150000, true}};
  u.assumptions = {"row entries are in increasing column order without duplicates, values at least 1 (as documented); the writer is closed before reading"};
  return u;
}
