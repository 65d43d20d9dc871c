#include "pbt.h"
#include <cmath>
#include <map>
#include <random>
#include <set>
#include <math/random.h>
using namespace pbt;
namespace R = pfi::math::random;
// a generator whose outputs the case chooses (edge values: 0, all ones, ...)
struct Scripted { static std::vector<uint32_t> script; size_t pos = 0; Scripted(uint32_t) {} uint32_t next() { uint32_t v = script.empty() ? 0 : script[pos % script.size()]; pos++; return v; } };
std::vector<uint32_t> Scripted::script;
struct Mt { std::mt19937 g; size_t pos = 0; Mt(uint32_t s) : g(s) {} uint32_t next() { return (uint32_t)g(); } };

// reference: everything is derived from the 32-bit stream
template <class G> struct Model {
  G g; bool stocked = false; double stock = 0; Model(uint32_t seed) : g(seed) {}
  uint32_t i() { return g.next(); }
  double d() { uint32_t a = g.next() >> 5, b = g.next() >> 6; return ((double)a * 67108864.0 + b) / 9007199254740992.0; }
  uint32_t i(uint32_t n) { return (uint32_t)std::floor(d() * n); }
  double gauss() { if (stocked) { stocked = false; return stock; } double a = 1.0 - d(), b = 1.0 - d(), r = std::sqrt(-2.0 * std::log(a)); stock = r * std::cos(2 * M_PI * b); stocked = true; return r * std::sin(2 * M_PI * b); }
};
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static double ival(Src &s) { return (double)s.range(-1000, 1000); }
template <class Gen, class MG> static void run(Src &s, Ctx &c, uint32_t seed, size_t maxops) {
  R::random<Gen> r(seed), twin(seed); Model<MG> m(seed);
  size_t n = 1 + s.size(maxops); c.nt(n >= 3);
  bool longrun = s.coin(1, 4);
  for (size_t k = 0; k < n; k++) {
    size_t rep = longrun ? s.size(700) : 1; int op = (int)s.choose(9);
    uint32_t a = (uint32_t)s.uedge(32), b = (uint32_t)s.uedge(32); if (a > b) std::swap(a, b); if (a == b) { if (b == 0xffffffffu) a--; else b++; }
    double x = ival(s), y = ival(s); if (x > y) std::swap(x, y); if (x == y) y += 1;
    for (size_t q = 0; q < rep; q++) {
      switch (op) {
        case 0: { uint32_t g = r.next_int(), w = m.i(); CHECK(g == w, "next_int() " << g << ", reference stream " << w); CHECK(twin() == w, "twin generator differs"); break; }
        case 1: { uint32_t g = r.next_int(b), w = m.i(b); CHECK(g < b, "next_int(" << b << ") = " << g); CHECK(g == w, "next_int(" << b << ") = " << g << ", expected " << w); CHECK(twin(b) == w, "twin"); c.label("bounded integers"); break; }
        case 2: { uint32_t g = r.next_int(a, b), w = a + m.i(b - a); CHECK(g >= a && g < b, "next_int(" << a << "," << b << ") = " << g); CHECK(g == w, "next_int(" << a << "," << b << ") = " << g << ", expected " << w); CHECK(twin(a, b) == w, "twin"); break; }
        case 3: { double g = r.next_double(), w = m.d(); CHECK(g >= 0 && g < 1, "next_double() = " << g); CHECK(g == w, "next_double() = " << g << ", expected " << w); CHECK(twin.next_double() == w, "twin"); break; }
        case 4: { double z = std::fabs(x) + 1, g = r.next_double(z), w = m.d() * z; CHECK(g >= 0 && g < z && near(g, w), "next_double(" << z << ") = " << g << ", expected " << w); twin.next_double(z); break; }
        case 5: { double g = r.next_double(x, y), w = x + m.d() * (y - x); CHECK(g >= x && g <= y && near(g, w), "next_double(" << x << "," << y << ") = " << g << ", expected " << w); twin.next_double(x, y); break; }
        case 6: { double g = r.next_gaussian(), w = m.gauss(); CHECK(std::isfinite(g), "next_gaussian() = " << g); CHECK(near(g, w), "next_gaussian() = " << g << ", expected " << w); CHECK(twin.next_gaussian() == g, "twin"); c.label("gaussian"); break; }
        case 7: { double g = r.next_gaussian(x, y), w = x + y * m.gauss(); CHECK(std::isfinite(g) && near(g, w), "next_gaussian(" << x << "," << y << ") = " << g << ", expected " << w); CHECK(twin.next_gaussian(x, y) == g, "twin"); break; }
        default: { uint32_t g = r.next_int(0), w = m.i(0); CHECK(g == w && g == 0, "next_int(0) = " << g); twin.next_int(0); }
      }
    }
  }
}
static void mt(Src &s, Ctx &c) { uint32_t seed = (uint32_t)(s.coin() ? s.u64() : s.uedge(32)); NOTE("seed " << seed); run<R::mersenne_twister, Mt>(s, c, seed, 30); }
static void edges(Src &s, Ctx &c) {
  size_t n = 1 + s.choose(12); Scripted::script.clear(); for (size_t i = 0; i < n; i++) Scripted::script.push_back(s.coin(2, 3) ? s.pick<uint32_t>({0u, 0xffffffffu, 0x1fu, 0x20u, 0x3fu, 0x40u, 0x7fffffffu, 0x80000000u, 0xffffffe0u, 0xffffffc0u}) : (uint32_t)s.u64());
  run<Scripted, Scripted>(s, c, 0, 20);
}
// stream positions far beyond the state size
static void stream(Src &s, Ctx &c) {
  uint32_t seed = (uint32_t)(s.coin() ? s.u64() : s.uedge(32)); NOTE("seed " << seed); R::mersenne_twister g(seed); std::mt19937 w(seed); size_t n = 600 + s.choose(3000); c.nt();
  for (size_t i = 0; i < n; i++) { uint32_t a = g.next(), b = (uint32_t)w(); CHECK(a == b, "word " << i << " of the stream is " << a << ", reference " << b); }
  R::mersenne_twister h(g); for (size_t i = 0; i < 700; i++) { uint32_t b = (uint32_t)w(); CHECK(g.next() == b && h.next() == b, "copied generator differs at " << n + i); }
}
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
static void sampling(Src &s, Ctx &c) {
  uint32_t seed = (uint32_t)s.u64(); R::mtrand r(seed), r2(seed), q(seed); int n, k;
  switch (s.choose(5)) { case 0: n = (int)s.range(-3, 3); k = (int)s.range(-3, 4); break; case 1: n = s.coin() ? 0x7fffffff : 0x7fffffff - (int)s.choose(5); k = (int)s.choose(20); break; case 2: n = 1 + (int)s.choose(200); k = n - (int)s.choose(3); break; case 3: n = 1 + (int)s.choose(40); k = n + (int)s.choose(3); break; default: n = 1 + (int)s.choose(3000); k = (int)s.choose(std::min(n, 300) + 1); }
  NOTE("seed " << seed << " n " << n << " k " << k); c.nt(n > 1 && k > 1);
  std::vector<int> v(s.choose(5), -7), old = v, v2; bool wo = s.coin();
  bool ok = wo ? R::sample_without_replacement(r, n, k, v) : R::sample_with_replacement(r, n, k, v);
  bool can = n > 0 && k >= 0 && (!wo || k <= n); CHECK(ok == can, "n=" << n << " k=" << k << " returned " << ok);
  if (!ok) { c.label("refused"); CHECK(v == old, "a refused request changed the result"); return; }
  CHECK((int)v.size() == k, "asked for " << k << ", got " << v.size()); std::set<int> d; for (int x : v) { CHECK(x >= 0 && x < n, x << " is outside [0," << n << ")"); d.insert(x); }
  if (wo) CHECK(d.size() == v.size(), "repeated numbers among " << k << " of " << n);
  if (wo) R::sample_without_replacement(r2, n, k, v2); else R::sample_with_replacement(r2, n, k, v2); CHECK(v2 == v, "the same seed gives another sample");
}
// every outcome of a sample is equally likely: enumerate all answers of the random source
struct Enum { std::vector<std::pair<uint32_t, uint32_t>> st; size_t pos = 0; double w = 1; uint32_t operator()(uint32_t n) { if (n == 0) throw Bad("asked for a number below 0"); if (pos == st.size()) { if (st.size() > 12) throw Bad("deep"); st.push_back({0, n}); } uint32_t v = st[pos].first; w /= st[pos].second; pos++; return v; } uint32_t operator()(uint32_t a, uint32_t b) { return a + (*this)(b - a); } uint32_t next_int(uint32_t n) { return (*this)(n); } bool advance() { while (!st.empty() && st.back().first + 1 == st.back().second) st.pop_back(); if (st.empty()) return false; st.back().first++; return true; } };
static void fair(Src &s, Ctx &c) {
  int n = 1 + (int)s.choose(6), k = (int)s.choose(n + 1); bool wo = s.coin(2, 3); if (!wo) { n = 1 + (int)s.choose(4); k = (int)s.choose(5); } NOTE("n " << n << " k " << k << (wo ? " without" : " with")); c.nt(n > 1 && k > 0);
  Enum e; std::map<std::vector<int>, double> p; int runs = 0;
  try { do { e.pos = 0; e.w = 1; std::vector<int> v; if (wo) R::sample_without_replacement(e, n, k, v); else R::sample_with_replacement(e, n, k, v); e.st.resize(e.pos); if (wo) std::sort(v.begin(), v.end()); p[v] += e.w; if (++runs > 20000) { c.label("not enumerable"); return; } } while (e.advance()); }
  catch (const Bad &) { c.label("not enumerable"); return; }
  double total = 1; if (wo) for (int i = 0; i < k; i++) total = total * (n - i) / (i + 1); else for (int i = 0; i < k; i++) total *= n;
  CHECK(p.size() == (size_t)(total + .5), p.size() << " of " << total << " samples can occur");
  for (auto &x : p) CHECK(near(x.second * total, 1), "a sample of n=" << n << " k=" << k << " has probability " << x.second << ", not 1/" << total);
}
Suite pbt::suite() {
  Suite u; u.property = "C37";
  u.rule = "Seeds are edge-biased and uniform; operation sequences over all drawing functions (also repeated hundreds of times to cross the 624-word state) are compared, value by value, with a model fed by std::mt19937; scripted generators feed extreme words (0, all ones). Sampling requests include impossible and near-full ones, and for small n the random source is enumerated exhaustively to get exact probabilities. Non-trivial: at least 3 operations / more than one number sampled.";
  u.props = {{"mersenne", mt, 20000, 400000, false}, {"edge_words", edges, 20000, 400000, false}, {"stream", stream, 3000, 50000, false}, {"sampling", sampling, 10000, 200000, true}, {"fair", fair, 2000, 20000, false}};
  u.assumptions = {"std::mt19937 of libstdc++ is the MT19937 reference", "real ranges [a,b) may reach b by rounding: only a<=x<=b is checked for them"};
  return u;
}
