#include "pbt.h"
#include <cmath>
#include <math/vector.h>
using namespace pbt;
namespace N = pfi::math::vector::component_by_name; namespace A = pfi::math::vector::component_by_array;
template <class V, class T, int D> static V make(const T *v) { T t[D]; for (int i = 0; i < D; i++) t[i] = v[i]; return V(t); }
template <class V, class T, int D> static std::string str(V v) { std::ostringstream o; for (int i = 0; i < D; i++) o << (i ? "," : "") << v[i]; return o.str(); }
template <class V, class T, int D> static void same(V v, const T *w, const char *what) { for (int i = 0; i < D; i++) if (!(v[i] == w[i])) { std::string t = str<V, T, D>(v); FAIL(what << " in dimension " << D << " gives (" << t << "): component " << i << " should be " << w[i]); } }
template <class T> struct Outer {};
template <class V, class T> static void outer2(const V &a, const V &b, const T *x, const T *y) { CHECK(a % b == x[0] * y[1] - x[1] * y[0], "outer product is " << a % b); }
template <class V, class T> static void outer3(const V &a, const V &b, const T *x, const T *y) { T w[3] = {(T)(x[1] * y[2] - x[2] * y[1]), (T)(x[2] * y[0] - x[0] * y[2]), (T)(x[0] * y[1] - x[1] * y[0])}; same<V, T, 3>(a % b, w, "outer product"); }
template <class V, class T, int D> struct Out { static void run(const V &, const V &, const T *, const T *) {} };
template <class V, class T> struct Out<V, T, 2> { static void run(const V &a, const V &b, const T *x, const T *y) { outer2(a, b, x, y); } };
template <class V, class T> struct Out<V, T, 3> { static void run(const V &a, const V &b, const T *x, const T *y) { outer3(a, b, x, y); } };
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-10 * (1 + std::fabs(a) + std::fabs(b)); }
template <class T> struct IsF { static const bool v = false; }; template <> struct IsF<double> { static const bool v = true; };
template <class V, class T, int D> struct Real { static void run(Src &, V &, V &, const T *, const T *) {} };
template <class V, int D> struct Real<V, double, D> {
  static void run(Src &s, V &a, V &b, const double *x, const double *y) {
    double n = 0, dot = 0, nb = 0; for (int i = 0; i < D; i++) { n += x[i] * x[i]; dot += x[i] * y[i]; nb += y[i] * y[i]; }
    CHECK(near(abs(a), std::sqrt(n)), "absolute value " << abs(a) << " not " << std::sqrt(n));
    if (nb > 0) CHECK(near(a / b, dot / nb), "projection factor " << a / b << " not " << dot / nb);
    if (n > 0) { double l = (double)s.range(1, 9); V q = s.coin() ? a.normalize(l) : normalize(a, l); for (int i = 0; i < D; i++) CHECK(near(q[i], x[i] * l / std::sqrt(n)), "normalised to length " << l << ": component " << i << " is " << q[i]); V one = a.normalize(), one2 = normalize(a); for (int i = 0; i < D; i++) CHECK(near(one[i], x[i] / std::sqrt(n)) && one2[i] == one[i], "unit vector: component " << i << " is " << one[i]); same<V, double, D>(a, x, "normalize changed its operand"); }
  }
};
template <class V, class T, int D> static void run(Src &s, Ctx &c) {
  T x[D], y[D], w[D]; int mag = s.pick<int>({3, 1000, 30}); for (int i = 0; i < D; i++) { x[i] = (T)s.range(-mag, mag); y[i] = s.coin(1, 3) ? x[i] : (T)s.range(-mag, mag); }
  V a = make<V, T, D>(x), b = make<V, T, D>(y); { std::string sa = str<V, T, D>(a), sb = str<V, T, D>(b); NOTE("a=(" << sa << ") b=(" << sb << ")"); } T m = (T)s.range(-9, 9); if (m == 0) m = 2; bool nz = false; for (int i = 0; i < D; i++) nz |= x[i] != 0; c.nt(nz);
  { V z; T o[D] = {}; same<V, T, D>(z, o, "default construction"); } same<V, T, D>(a, x, "construction");
  T out[D + 1]; out[D] = (T)77; a.writeToArray(out); for (int i = 0; i < D; i++) CHECK(out[i] == x[i], "writeToArray component " << i); CHECK(out[D] == (T)77, "writeToArray writes too much");
  for (int i = 0; i < D; i++) w[i] = x[i] + y[i]; same<V, T, D>(a + b, w, "sum");
  { V t = a; V &r = (t += b); CHECK(&r == &t, "+= returns another object"); same<V, T, D>(t, w, "+="); }
  for (int i = 0; i < D; i++) w[i] = x[i] - y[i]; same<V, T, D>(a - b, w, "difference"); { V t = a; CHECK(&(t -= b) == &t, "-= returns another object"); same<V, T, D>(t, w, "-="); }
  for (int i = 0; i < D; i++) w[i] = -x[i]; same<V, T, D>(-a, w, "negation");
  for (int i = 0; i < D; i++) w[i] = m * x[i]; same<V, T, D>(a * m, w, "scaling"); same<V, T, D>(m * a, w, "scaling from the left"); { V t = a; CHECK(&(t *= m) == &t, "*= returns another object"); same<V, T, D>(t, w, "*="); }
  for (int i = 0; i < D; i++) w[i] = x[i] / m; same<V, T, D>(a / m, w, "division"); { V t = a; CHECK(&(t /= m) == &t, "/= returns another object"); same<V, T, D>(t, w, "/="); }
  T dot = 0, nn = 0; for (int i = 0; i < D; i++) { dot += x[i] * y[i]; nn += x[i] * x[i]; } CHECK(a * b == dot, "inner product is " << a * b << ", not " << dot); CHECK(norm(a) == nn, "norm is " << norm(a) << ", not " << nn);
  Out<V, T, D>::run(a, b, x, y); Real<V, T, D>::run(s, a, b, x, y);
  // operands that are (part of) the same object
  { V t = a; t += t; for (int i = 0; i < D; i++) w[i] = x[i] + x[i]; same<V, T, D>(t, w, "v+=v"); t = a; t -= t; for (int i = 0; i < D; i++) w[i] = 0; same<V, T, D>(t, w, "v-=v"); int k = (int)s.choose(D); t = a; t *= t[k]; for (int i = 0; i < D; i++) w[i] = x[i] * x[k]; same<V, T, D>(t, w, "v*=v[k]"); if (x[k] != 0) { t = a; t /= t[k]; for (int i = 0; i < D; i++) w[i] = x[i] / x[k]; same<V, T, D>(t, w, "v/=v[k]"); } }
  bool eq = true, lt = false; for (int i = 0; i < D; i++) if (x[i] != y[i]) { eq = false; lt = x[i] < y[i]; break; } CHECK((a == b) == eq, "equality"); CHECK((a < b) == lt, "ordering"); CHECK((b < a) == (!eq && !lt), "reverse ordering");
  std::ostringstream o; o << a << " " << b; std::string txt; for (int i = 0; i < D; i++) { std::ostringstream q; q << x[i]; txt += (i ? " " : "") + q.str(); } CHECK(o.str().compare(0, txt.size(), txt) == 0, "printed as " << o.str() << ", not " << txt); std::istringstream is(o.str()); V p, q; is >> p >> q; CHECK(!is.fail(), "reading " << o.str() << " fails"); same<V, T, D>(p, x, "reading back"); same<V, T, D>(q, y, "reading back the second");
  int k = (int)s.choose(D); V t = a; t[k] = (T)(x[k] + 1); for (int i = 0; i < D; i++) w[i] = x[i] + (i == k); same<V, T, D>(t, w, "component assignment"); same<V, T, D>(a, x, "a copy shares its components");
}
template <class T> static void names(Src &s, Ctx &c) {
  T x[4]; for (auto &v : x) v = (T)s.range(-50, 50); c.nt();
  N::vector2<T> a(x[0], x[1]); CHECK(a.x == x[0] && a.y == x[1], "names of dimension 2"); N::vector3<T> b(x[0], x[1], x[2]); CHECK(b.x == x[0] && b.y == x[1] && b.z == x[2], "names of dimension 3"); N::vector4<T> d(x[0], x[1], x[2], x[3]); for (int i = 0; i < 4; i++) CHECK(d[i] == x[i], "dimension 4"); CHECK(&a[0] == &a.x && &a[1] == &a.y && &b[2] == &b.z, "index and name refer to different components");
  A::vector4<T> e(x[0], x[1], x[2], x[3]); for (int i = 0; i < 4; i++) CHECK(e.r[i] == x[i] && &e[i] == &e.r[i], "array layout"); T y[10]; for (auto &v : y) v = (T)s.range(-50, 50); A::vector10<T> f(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8], y[9]); same<A::vector10<T>, T, 10>(f, y, "constructor"); A::vector5<T> g(y[0], y[1], y[2], y[3], y[4]); same<A::vector5<T>, T, 5>(g, y, "constructor"); A::vector6<T> h(y[0], y[1], y[2], y[3], y[4], y[5]); same<A::vector6<T>, T, 6>(h, y, "constructor"); A::vector7<T> i7(y[0], y[1], y[2], y[3], y[4], y[5], y[6]); same<A::vector7<T>, T, 7>(i7, y, "constructor"); A::vector8<T> i8(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7]); same<A::vector8<T>, T, 8>(i8, y, "constructor"); A::vector9<T> i9(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8]); same<A::vector9<T>, T, 9>(i9, y, "constructor"); A::vector2<T> i2(y[0], y[1]); same<A::vector2<T>, T, 2>(i2, y, "constructor"); A::vector3<T> i3(y[0], y[1], y[2]); same<A::vector3<T>, T, 3>(i3, y, "constructor");
}
template <class T> static void all(Src &s, Ctx &c) {
  switch (s.choose(13)) {
    case 0: run<N::vector2<T>, T, 2>(s, c); break; case 1: run<N::vector3<T>, T, 3>(s, c); break; case 2: run<N::vector4<T>, T, 4>(s, c); break;
    case 3: run<A::vector2<T>, T, 2>(s, c); break; case 4: run<A::vector3<T>, T, 3>(s, c); break; case 5: run<A::vector4<T>, T, 4>(s, c); break; case 6: run<A::vector5<T>, T, 5>(s, c); break; case 7: run<A::vector6<T>, T, 6>(s, c); break; case 8: run<A::vector7<T>, T, 7>(s, c); break; case 9: run<A::vector8<T>, T, 8>(s, c); break; case 10: run<A::vector9<T>, T, 9>(s, c); break; case 11: run<A::vector10<T>, T, 10>(s, c); break; default: names<T>(s, c);
  }
}
Suite pbt::suite() {
  Suite u; u.property = "C40";
  u.rule = "Vectors of every dimension (2-4 named, 2-10 array) over int, long long and integer-valued double with components that often coincide; every operation is compared with its component-wise definition, including operands that are the same object or a component of it, comparisons, text output and input. Non-trivial: a vector that is not zero.";
  u.props = {{"double", all<double>, 60000, 1000000, false}, {"int", all<int>, 60000, 1000000, false}, {"long_long", all<long long>, 30000, 500000, false}};
  u.assumptions = {"component values are small enough that products are exact", "lengths, projections and normalisation are compared within 1e-10 relative"};
  return u;
}
