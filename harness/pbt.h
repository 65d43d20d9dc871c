// A small choice-sequence property-based testing engine (Hypothesis style):
// every random decision of a case is one recorded integer, so a case is replayed
// and shrunk by replaying and shrinking its list of integers.  Cases run in forked
// workers; crashes, sanitizer reports and hangs of the code under test are failures
// of the case that was running.  With -fsanitize-coverage=inline-8bit-counters the
// engine also mutates choice lists that reached new code (coverage-guided search).
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; explicit Fail(const std::string &m) : msg(m) {} };

class Src {
public:
  uint64_t choose(uint64_t bound);               // uniform in [0,bound), bound>=1; smallest = simplest
  // --- conveniences (all built on choose) ---
  int64_t range(int64_t lo, int64_t hi) {         // inclusive
    return lo + (int64_t)choose((uint64_t)(hi - lo) + 1);
  }
  bool coin(unsigned num = 1, unsigned den = 2) { // true with probability num/den; 0 = false
    return choose(den) >= den - num;
  }
  uint64_t u64() { return choose(0); }            // full 64 bits
  template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return v.begin()[choose(v.size())]; }
  template <size_t N> char ch(const char (&a)[N]) { return a[choose(N - 1)]; }
  size_t size(size_t max) {                       // skewed towards small, reaches max
    switch (choose(4)) {
      case 0: return choose(std::min<size_t>(max, 3) + 1);
      case 1: return choose(std::min<size_t>(max, 8) + 1);
      case 2: return choose(std::min<size_t>(max, 24) + 1);
      default: return choose(max + 1);
    }
  }
  int64_t i64();                                  // edge-biased signed
  uint64_t uedge(unsigned bits);                  // edge-biased unsigned below 2^bits
  double finite();                                // edge-biased finite double
  std::string bytes(size_t max);                  // arbitrary bytes, biased towards interesting ones
  std::string over(const char *alphabet, size_t max);  // string over an alphabet
  uint32_t codepoint(bool allow_nul = true);      // Unicode scalar value, edge-biased
  std::string utf8(size_t max, bool allow_nul = true);
  // big things from few choices: a length next to a power of two (at most max), and n bytes drawn from one choice
  size_t edge_len(size_t max) { unsigned k = 0; while (((size_t)2 << k) <= max) k++; size_t n = ((size_t)1 << choose(k + 1)) + (coin(1, 3) ? choose(32) : 13 + choose(5)); return std::min(max, n < 15 ? 0 : n - 15); }
  std::string blob(size_t n, const char *alphabet = nullptr) { uint64_t x = choose(1000000) * 2 + 1; size_t m = alphabet ? strlen(alphabet) : 256; std::string r(n, 0); for (auto &c : r) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = alphabet ? alphabet[(x >> 20) % m] : (char)(x >> 20); } return r; }
  // engine side
  const uint64_t *pre = nullptr; size_t npre = 0, pos = 0;
  bool extend = true;                             // random after the prefix, else zeros
  uint64_t rng[4];
  uint64_t next();
  void seed(uint64_t s);
};

class Ctx {
public:
  bool verbose = false, is_nt = false;
  std::vector<std::string> notes;
  void nt(bool b = true) { if (b) is_nt = true; } // this case is non-trivial
  void label(const char *l, uint64_t n = 1);      // classification counter
  void note(const std::string &s) { notes.push_back(s); }
};

typedef void (*PropFn)(Src &, Ctx &);
struct Prop {
  const char *name; PropFn fn;
  long quick, thorough;      // number of cases
  bool guided;               // use coverage feedback
  bool racy = false;         // real threads: a failure need not come back on every run
};
struct Suite {
  const char *property;
  const char *rule;          // how cases are made and what is non-trivial
  std::vector<Prop> props;
  std::vector<std::string> assumptions;
  int workers = 8;
  double quick_s = 45, thorough_s = 400;      // hard time budgets
  double quick_min_s = 18, thorough_min_s = 120; // keep generating at least this long
  int cpu_limit = 20, wall_limit = 120;   // per case, seconds: beyond = does not terminate
  int confirm_tries = 3, confirm_need = 3;
  bool fork_each = false;    // run every case in its own process
  void (*once)() = nullptr;  // per-worker initialisation
};
Suite suite();               // defined by the harness

std::string show(const std::string &s, size_t max = 400);   // printable form
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char *)p)[i]; h *= 1099511628211ull; }
  return h;
}
void utf8_append(std::string &out, uint32_t cp);
}

#define PBT_STR_(x) #x
#define PBT_STR(x) PBT_STR_(x)
#define CHECK(cond, text) \
  do { if (!(cond)) { std::ostringstream o__; o__ << text << "  [" #cond "]"; throw pbt::Fail(o__.str()); } } while (0)
#define FAIL(text) \
  do { std::ostringstream o__; o__ << text; throw pbt::Fail(o__.str()); } while (0)
#define NOTE(text) \
  do { if (c.verbose) { std::ostringstream o__; o__ << text; c.note(o__.str()); } } while (0)
#endif
