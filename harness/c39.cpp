#include "pbt.h"
#include <cmath>
#include <complex>
#include <deque>
#include <map>
#include <math/fft.h>
using namespace pbt;
typedef std::complex<double> Cd; typedef std::complex<float> Cf; typedef std::complex<long double> Cl;
static bool pow2(size_t n) { return n && !(n & (n - 1)); }
static std::vector<Cl> dft(const std::vector<Cl> &a, int sign) {   // the defining sum
  size_t n = a.size(); std::vector<Cl> r(n), w(n); const long double tau = 8 * std::atan(1.0L); for (size_t k = 0; k < n; k++) w[k] = Cl(std::cos(tau * k / n), sign * std::sin(tau * k / n));
  for (size_t k = 0; k < n; k++) { Cl t = 0; for (size_t j = 0; j < n; j++) t += a[j] * w[(j * k) % n]; r[k] = t; } return r;
}
template <class C> static void nearly(const std::vector<C> &got, const std::vector<Cl> &want, long double scale, const char *what) {
  long double eps = std::max<long double>(std::numeric_limits<double>::epsilon(), std::numeric_limits<typename C::value_type>::epsilon()) * 64 * scale * (long double)(got.size() + 8) + 1e-30L;
  for (size_t i = 0; i < got.size(); i++) { long double e = std::abs(Cl(got[i].real(), got[i].imag()) - want[i]); CHECK(e <= eps, what << ": element " << i << " of " << got.size() << " is " << got[i] << ", not (" << (double)want[i].real() << "," << (double)want[i].imag() << ")"); }
}
template <class C> static std::vector<C> data(Src &s, size_t n) { std::vector<C> v(n); int kind = (int)s.choose(4); for (size_t i = 0; i < n; i++) { switch (kind) { case 0: v[i] = C((typename C::value_type)s.range(-5, 5), (typename C::value_type)s.range(-5, 5)); break; case 1: v[i] = C((typename C::value_type)(s.range(-1000000, 1000000) / 1000.0), (typename C::value_type)(s.range(-1000000, 1000000) / 1000.0)); break; case 2: v[i] = C(0, 0); break; default: v[i] = C((typename C::value_type)s.range(-1, 1), 0); } } if (kind == 2 && n) v[s.choose(n)] = C(1, 2); return v; }
template <class C> static std::vector<Cl> wide(const std::vector<C> &v) { std::vector<Cl> r; for (auto &x : v) r.push_back(Cl(x.real(), x.imag())); return r; }
static long double mag(const std::vector<Cl> &v) { long double m = 0; for (auto &x : v) m += std::abs(x); return m + 1e-9L; }
template <class C> static void one(Src &s, Ctx &c) {
  size_t n = s.coin(1, 100) ? (size_t)1 << (9 + s.choose(4)) : s.coin(3, 4) ? (size_t)1 << s.choose(9) : s.coin(1, 8) ? s.choose(5000) : s.choose(70); std::vector<C> v = data<C>(s, n), o = v; bool inv = s.coin(); NOTE("length " << n); c.nt(n > 1);
  if (!pow2(n)) {
    c.label("not a power of two"); bool th = false; try { if (inv) pfi::math::ifft(v.begin(), v.end()); else pfi::math::fft(v.begin(), v.end()); } catch (const std::length_error &) { th = true; } CHECK(th, "length " << n << " was accepted"); CHECK(v == o, "refused data was changed"); return;
  }
  std::vector<Cl> w = wide(o); long double sc = mag(w); int how = (int)s.choose(3);
  if (how == 0) { if (inv) pfi::math::ifft(v.begin(), v.end()); else pfi::math::fft(v.begin(), v.end()); }
  else if (how == 1) { std::deque<C> d(v.begin(), v.end()); if (inv) pfi::math::ifft(d.begin(), d.end()); else pfi::math::fft(d.begin(), d.end()); v.assign(d.begin(), d.end()); }
  else { if (inv) pfi::math::ifft(&v[0], &v[0] + n); else pfi::math::fft(&v[0], &v[0] + n); }
  nearly(v, dft(w, inv ? -1 : 1), sc, inv ? "ifft" : "fft");
  if (inv) pfi::math::fft(v.begin(), v.end()); else pfi::math::ifft(v.begin(), v.end());
  for (auto &x : w) x *= (long double)n; nearly(v, w, sc * n, "transform and inverse");
}
static std::vector<Cl> dft2(const std::vector<Cl> &a, size_t h, size_t w, int sign) {
  std::vector<Cl> r(a); for (size_t y = 0; y < h; y++) { std::vector<Cl> t(r.begin() + y * w, r.begin() + (y + 1) * w); t = dft(t, sign); std::copy(t.begin(), t.end(), r.begin() + y * w); }
  for (size_t x = 0; x < w; x++) { std::vector<Cl> t(h); for (size_t y = 0; y < h; y++) t[y] = r[y * w + x]; t = dft(t, sign); for (size_t y = 0; y < h; y++) r[y * w + x] = t[y]; } return r;
}
template <class C> static void two(Src &s, Ctx &c) {
  bool big = s.coin(1, 60); size_t h = s.coin(3, 4) ? (size_t)1 << s.choose(big ? 8 : 5) : 1 + s.choose(12), w = s.coin(3, 4) ? (size_t)1 << s.choose(big ? 8 : 5) : 1 + s.choose(12); bool inv = s.coin(), mat = s.coin(); NOTE(h << "x" << w << (mat ? " matrix" : " flat")); c.nt(h > 1 && w > 1);
  std::vector<C> v = data<C>(s, h * w); std::vector<Cl> o = wide(v); long double sc = mag(o); bool bad = !pow2(h) || !pow2(w);
  size_t extra = s.coin(1, 6) ? 1 + s.choose(3) : 0;  // not a rectangle
  std::vector<std::vector<C>> M(h); for (size_t y = 0; y < h; y++) M[y].assign(v.begin() + y * w, v.begin() + (y + 1) * w);
  bool notrect = false;
  if (extra) { if (mat) { if (h > 1) { M[s.choose(h)].resize(w + extra); notrect = true; } } else { for (size_t i = 0; i < extra; i++) v.push_back(C(1, 1)); notrect = v.size() % w != 0; if (!notrect) { h = v.size() / w; o = wide(v); sc = mag(o); bad = !pow2(h) || !pow2(w); } } }
  auto run = [&](bool i) { if (mat) { if (i) pfi::math::ifft2d(M); else pfi::math::fft2d(M); } else { if (i) pfi::math::ifft2d(v.begin(), v.end(), w); else pfi::math::fft2d(v.begin(), v.end(), w); } };
  bool th = false; try { run(inv); } catch (const std::length_error &) { th = true; }
  CHECK(th == (bad || notrect), (th ? "refused " : "accepted ") << h << "x" << w << (notrect ? " (not a rectangle)" : "")); if (th) { c.label("refused"); return; }
  auto flat = [&] { if (mat) { v.clear(); for (auto &r : M) v.insert(v.end(), r.begin(), r.end()); } };
  flat(); nearly(v, dft2(o, h, w, inv ? -1 : 1), sc, inv ? "ifft2d" : "fft2d"); run(!inv); flat(); for (auto &x : o) x *= (long double)(h * w); nearly(v, o, sc * h * w, "2-d transform and inverse");
}
static void longer(Src &s, Ctx &c) {   // long data that is zero but for a few elements: the sum has a few terms
  size_t n = (size_t)1 << (13 + s.choose(6)), k = 1 + s.choose(4); bool inv = s.coin(); std::vector<Cd> v(n); std::map<size_t, Cl> at; for (size_t i = 0; i < k; i++) { size_t p = s.coin() ? s.choose(n) : s.coin() ? n - 1 - s.choose(4) : (size_t)1 << s.choose(19); p %= n; Cd x((double)s.range(-1000, 1000), (double)s.range(-1000, 1000)); v[p] = x; at[p] = Cl(x.real(), x.imag()); } NOTE("length " << n << ", " << at.size() << " elements other than 0"); c.nt();
  std::vector<Cd> o = v; if (inv) pfi::math::ifft(v.begin(), v.end()); else pfi::math::fft(v.begin(), v.end()); const long double tau = 8 * std::atan(1.0L); std::vector<Cl> w(n); for (size_t i = 0; i < n; i++) w[i] = Cl(std::cos(tau * i / n), (inv ? -1 : 1) * std::sin(tau * i / n)); std::vector<Cl> want(n); long double sc = 1e-9L; for (auto &x : at) { sc += std::abs(x.second); for (size_t i = 0; i < n; i++) want[i] += x.second * w[(i * x.first) % n]; }
  auto tol = [&](const std::vector<Cd> &g, const std::vector<Cl> &q, long double scale, const char *what) { for (size_t i = 0; i < n; i++) CHECK(std::abs(Cl(g[i].real(), g[i].imag()) - q[i]) <= 1e-9L * scale, what << ": element " << i << " of " << n << " is " << g[i] << ", not (" << (double)q[i].real() << "," << (double)q[i].imag() << ")"); }; tol(v, want, sc, inv ? "ifft" : "fft");
  if (inv) pfi::math::fft(v.begin(), v.end()); else pfi::math::ifft(v.begin(), v.end()); std::vector<Cl> back(n); for (size_t i = 0; i < n; i++) back[i] = Cl(o[i].real(), o[i].imag()) * (long double)n; tol(v, back, sc * n, "transform and inverse");
}
Suite pbt::suite() {
  Suite u; u.property = "C39";
  u.rule = "Data of power-of-two length up to 4096 (and other lengths up to 5000) of complex float, double and long double in vectors, deques and arrays, random, sparse and impulse-like, compared with the defining sum in long double; lengths up to 2^18 with few elements other than zero; two-dimensional data up to 128x128 in both calling forms, including non-rectangular and non-power-of-two shapes. Non-trivial: more than one element.";
  u.props = {{"double_1d", one<Cd>, 20000, 200000, false}, {"float_1d", one<Cf>, 10000, 100000, false}, {"longdouble_1d", one<Cl>, 6000, 60000, false}, {"long_1d", longer, 60, 600, false}, {"double_2d", two<Cd>, 20000, 200000, false}, {"float_2d", two<Cf>, 8000, 80000, false}};
  u.assumptions = {"rounding of long data: errors within 1e-9 of the sum of the magnitudes are allowed", "rounding (eps of float for float data, of double otherwise): errors within 64*eps*(n+8)*sum|a| are allowed", "after a refused two-dimensional shape the contents are unspecified"};
  return u;
}
