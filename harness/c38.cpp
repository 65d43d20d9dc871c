#include "pbt.h"
#include <limits>
#include <math/ratio.h>
using namespace pbt;
using pfi::math::ratio::ratio;
typedef __int128 I;
static I g(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
struct Q { I n, d; Q(I a = 0, I b = 1) { if (b < 0) { a = -a; b = -b; } I k = g(a, b); n = a / k; d = b / k; } };
static std::string str(I v) { if (v == 0) return "0"; std::string r; bool neg = v < 0; if (neg) v = -v; while (v) { r.insert(r.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return (neg ? "-" : "") + r; }
template <class T> static bool fits(I v) { I m = (I)std::numeric_limits<T>::max(); return v <= m && v >= -m; }   // the minimum has no negation
template <class T> static I draw(Src &s, int bits) { I v = (I)s.uedge(bits); return s.coin() ? -v : v; }
template <class T> static void same(const ratio<T> &r, const Q &q, const char *what) {
  CHECK((I)r.num() == q.n && (I)r.den() == q.d, what << " is " << str(r.num()) << "/" << str(r.den()) << ", not " << str(q.n) << "/" << str(q.d));
  ratio<T> w((T)q.n, (T)q.d); CHECK(r == w, what << ": not equal to an equal value");
  std::ostringstream o; o << r; CHECK(o.str() == str(q.n) + "/" + str(q.d), what << " prints as " << o.str());
}
template <class T> static void run(Src &s, Ctx &c) {
  const int B = (int)sizeof(T) * 8 - 1;
  int bits = (int)s.pick<int>({B, B / 2, B / 2, 3, 5, B / 3});
  std::vector<ratio<T>> v; std::vector<Q> m; size_t n = 2 + s.choose(3);
  for (size_t i = 0; i < n; i++) { I a = draw<T>(s, bits), b = draw<T>(s, bits); if (b == 0) b = 1; if (!fits<T>(a) || !fits<T>(b)) { a = 1; b = 2; } if (s.coin(1, 8)) { v.push_back(ratio<T>((T)a)); m.push_back(Q(a)); } else { v.push_back(ratio<T>((T)a, (T)b)); m.push_back(Q(a, b)); } NOTE("v" << i << " = " << str(a) << "/" << str(b)); same(v[i], m[i], "constructed value"); }
  if (s.coin(1, 8)) { v.push_back(ratio<T>()); m.push_back(Q(0)); n++; same(v.back(), m.back(), "default value"); }
  size_t ops = 1 + s.size(12), done = 0;
  for (size_t k = 0; k < ops; k++) {
    size_t i = s.choose(n), j = s.coin(1, 4) ? i : s.choose(n); int op = (int)s.choose(4); bool assign = s.coin(2, 3); Q a = m[i], b = m[j], w; I h = g(a.d, b.d); bool ok = true;
    I a1 = a.n, b1 = b.n;
    switch (op) {
      case 0: case 1: { I x = a1 * (b.d / h), y = b1 * (a.d / h), z = op ? x - y : x + y, d = a.d * (b.d / h); ok = fits<T>(x) && fits<T>(y) && fits<T>(z) && fits<T>(d); if (ok) w = Q(z, d); break; }
      case 2: { w = Q(0); I p = g(a1, b.d), q = g(b1, a.d); I x = (a1 / p) * (b1 / q), y = (a.d / q) * (b.d / p); ok = fits<T>(x) && fits<T>(y); if (ok) w = Q(x, y); break; }
      default: { if (b1 == 0) { ok = false; break; } I p = g(a1, b1), q = g(a.d, b.d); I x = (a1 / p) * (b.d / q), y = (a.d / q) * (b1 / p); ok = fits<T>(x) && fits<T>(y); if (ok) w = Q(x, y); }
    }
    if (!ok) { c.label("does not fit: skipped"); continue; }
    static const char *nm[] = {"sum", "difference", "product", "quotient"}; done++; NOTE("v" << i << ' ' << "+-*/"[op] << (assign ? "=" : "") << " v" << j);
    if (i == j) c.label("with itself");
    if (assign) { ratio<T> *ret = nullptr; switch (op) { case 0: ret = &(v[i] += v[j]); break; case 1: ret = &(v[i] -= v[j]); break; case 2: ret = &(v[i] *= v[j]); break; default: ret = &(v[i] /= v[j]); } CHECK(ret == &v[i], "compound assignment returns another object"); m[i] = w; same(v[i], w, nm[op]); }
    else { ratio<T> r = op == 0 ? v[i] + v[j] : op == 1 ? v[i] - v[j] : op == 2 ? v[i] * v[j] : v[i] / v[j]; same(r, w, nm[op]); }
    for (size_t x = 0; x < n; x++) same(v[x], m[x], "an operand");
    CHECK((v[i] == v[j]) == (m[i].n == m[j].n && m[i].d == m[j].d), "equality of v" << i << " and v" << j);
  }
  c.nt(done >= 1);
}
Suite pbt::suite() {
  Suite u; u.property = "C38";
  u.rule = "Pools of 2-4 rationals with edge-biased numerators and denominators (both signs, zero numerators, widths up to the integer type's), then sequences of + - * / and their compound forms, also of a value with itself, against exact 128-bit arithmetic; an operation is skipped when an intermediate result of the textbook reduced-operand formula does not fit the type. Types: int, short, long, long long. Non-trivial: at least one operation carried out.";
  u.props = {{"int", run<int>, 60000, 1000000, false}, {"long_long", run<long long>, 60000, 1000000, false}, {"long", run<long>, 40000, 600000, false}, {"short", run<short>, 40000, 600000, false}};
  u.assumptions = {"intermediate results of the formula that reduces the operands first fit the integer type (and its minimum value does not occur)"};
  return u;
}
