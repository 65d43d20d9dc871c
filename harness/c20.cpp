#include "pbt.h"
#include <data/fenwick_tree.h>
using namespace pbt;
using pfi::data::fenwick_tree;
template <class T> static void run(Src &s, Ctx &c, bool small) {
  int n = s.coin(1, 30) ? 1 + (int)s.edge_len(70000) : 1 + (int)(s.coin(1, 4) ? s.choose(300) : s.choose(20)); if (s.coin(1, 4)) { n = 1 << s.choose(9); if (s.coin()) n += s.coin() ? 1 : n > 1 ? -1 : 0; } fenwick_tree<T> t(n); std::vector<T> a(n, T(0)); size_t k = s.size(60); int up = 0; NOTE("length " << n);
  for (size_t i = 0; i < k; i++) {
    if (s.coin()) { int p = s.coin(1, 4) ? (s.coin() ? 0 : n - 1) : (int)s.choose(n); T v = (T)(small ? s.range(-1000, 1000) : (int64_t)s.u64()); NOTE("increase " << p << " by " << v); t.increase(p, v); a[p] += v; up++; }
    else { int x = s.coin(1, 5) ? -1 : (int)s.choose(n), y = (int)s.choose(n); if (x > y && s.coin()) std::swap(x, y); T w = 0; for (int q = 0; q <= y; q++) w += a[q]; CHECK(t.query(y) == w, "sum of the first " << y + 1 << " is " << t.query(y) << ", not " << w); T r = 0; for (int q = std::max(x, 0); q <= y; q++) r += a[q]; if (x <= y + 1) CHECK(t.query(std::max(x, 0), y) == r, "sum of " << std::max(x, 0) << ".." << y << " is " << t.query(std::max(x, 0), y) << ", not " << r); CHECK(t.query(-1) == T(0), "sum of nothing"); }
  }
  c.nt(up > 1 && n > 2); T w = 0; for (int q = 0; q < n; q++) { w += a[q]; CHECK(t.query(q) == w, "finally, sum of the first " << q + 1 << " is " << t.query(q) << ", not " << w); CHECK(t.query(q, q) == a[q], "element " << q << " is " << t.query(q, q)); }
  fenwick_tree<T> u(t); u.increase(0, T(1)); CHECK(t.query(n - 1) == w && u.query(n - 1) == T(w + 1), "a copy is not independent");
}
static void ops(Src &s, Ctx &c) { switch (s.choose(4)) { case 0: run<int>(s, c, true); break; case 1: run<uint64_t>(s, c, false); c.label("wrapping 64 bit"); break; case 2: run<double>(s, c, true); break; default: run<long long>(s, c, true); } }
Suite pbt::suite() {
  Suite u; u.property = "C20";
  u.rule = "random histories of point updates and prefix/range queries on trees of length 1..512 (powers of two and neighbours favoured), int, 64-bit, wrapping unsigned and (exactly representable) real elements, compared with a plain array; non-trivial = 2+ updates on 3+ elements";
  u.props = {{"ops", ops, 60000, 1000000, true}};
  return u;
}
