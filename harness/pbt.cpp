#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>

// ---- coverage counters (clang -fsanitize-coverage=inline-8bit-counters) ----
static uint8_t *cov_b = nullptr, *cov_e = nullptr;
static std::vector<std::pair<uint8_t *, uint8_t *>> *cov_r = nullptr;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) {
  if (!cov_r) cov_r = new std::vector<std::pair<uint8_t *, uint8_t *>>;
  for (auto &p : *cov_r) if (p.first == b) return;
  cov_r->push_back({b, e});
}

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1:handle_abort=1:symbolize=1:strict_string_checks=0:allow_addr2line=0:max_malloc_fill_size=65536:malloc_fill_byte=181";
}

namespace pbt {

static const size_t CAP = 1u << 18;      // choices per case
struct Slot {                            // shared with the parent
  volatile long caseno; volatile int sub; volatile int state;   // 0 idle 1 running 2 failed 3 done
  volatile size_t n;
  volatile uint64_t evals[16];
  char msg[4096];
  uint64_t rec[CAP];
};
static Slot *g_slot = nullptr;           // the current process's slot

// ---- random source ----
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void Src::seed(uint64_t s) { for (int i = 0; i < 4; i++) rng[i] = splitmix(s); }
uint64_t Src::next() {                   // xoshiro256**
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
  rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3]; rng[2] ^= t; rng[3] = rotl(rng[3], 45);
  return r;
}
uint64_t Src::choose(uint64_t bound) {
  uint64_t v;
  if (pos < npre) v = pre[pos];
  else if (extend) v = next();
  else v = 0;
  bool fresh = pos >= npre;
  pos++;
  if (bound) { if (v >= bound) v = fresh ? (uint64_t)(((__uint128_t)v * bound) >> 64) : v % bound; 
               else if (fresh && extend) v = (uint64_t)(((__uint128_t)v * bound) >> 64); }
  size_t n = g_slot->n;
  if (n < CAP) { g_slot->rec[n] = v; g_slot->n = n + 1; }
  return v;
}
int64_t Src::i64() {
  switch (choose(6)) {
    case 0: return range(0, 20);
    case 1: return range(-200, 200);
    case 2: { int sh = (int)choose(64); uint64_t v = (1ull << sh) + (uint64_t)range(-2, 2); return (int64_t)v; }
    case 3: { int sh = (int)choose(64); uint64_t v = (1ull << sh) + (uint64_t)range(-2, 2); return (int64_t)(0 - v); }
    case 4: { static const int64_t e[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1,
              922337203685477580ll, -922337203685477580ll, 999999999999999999ll, 1000000000000000000ll};
              return e[choose(sizeof(e) / sizeof(e[0]))]; }
    default: return (int64_t)u64();
  }
}
uint64_t Src::uedge(unsigned bits) {
  uint64_t mask = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
  switch (choose(4)) {
    case 0: return choose(17) & mask;
    case 1: return choose(300) & mask;
    case 2: { int sh = (int)choose(bits); return ((1ull << sh) + (uint64_t)range(-2, 2)) & mask; }
    default: { int sh = (int)choose(bits); return (u64() & mask) >> sh; }
  }
}
double Src::finite() {
  switch (choose(7)) {
    case 0: return (double)range(-20, 20);
    case 1: return (double)range(-100000, 100000) / 8.0;
    case 2: return (double)i64();
    case 3: { static const double e[] = {0.0, -0.0, 1e-5, 1e5, 1e12, 1e11, 123456789012.0, 1234567890123.0, 0.1, 0.5, 1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308,
              1.7976931348623157e308, -1.7976931348623157e308, 1e15, 1e16, 1e17, 9007199254740992.0, 9007199254740993.0, 1e-4, 9.99999999999e-5, 999999999999.5, 1e100, 3.14159265358979};
              return e[choose(sizeof(e) / sizeof(e[0]))]; }
    case 4: { double m = (double)range(-999999999999ll, 999999999999ll); int e = (int)range(-40, 40); return m * std::pow(10.0, e); }
    case 5: { double m = (double)range(1, 9999); int e = (int)range(-300, 300); return m * std::pow(10.0, e); }
    default: for (;;) { uint64_t b = u64(); double d; memcpy(&d, &b, 8); if (std::isfinite(d)) return d; if (!extend && pos >= npre) return 0.0; }
  }
}
std::string Src::bytes(size_t max) {
  size_t n = size(max); std::string s; s.reserve(n);
  int mode = (int)choose(4);
  for (size_t i = 0; i < n; i++) {
    int ch;
    if (mode == 0) ch = 'a' + (int)choose(4);
    else if (mode == 1) ch = (int)choose(256);
    else switch (choose(4)) {
      case 0: ch = 'a' + (int)choose(26); break;
      case 1: ch = this->ch(" \t\r\n\"'\\,;&<>=/%+-_.:@#?[]{}()"); break;
      case 2: { static const int e[] = {0, 1, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0xe3, 0xef, 0xf4, 0xfe, 0xff}; ch = e[choose(14)]; break; }
      default: ch = (int)choose(256);
    }
    s.push_back((char)ch);
  }
  return s;
}
std::string Src::over(const char *al, size_t max) {
  size_t n = size(max), k = strlen(al); std::string s;
  for (size_t i = 0; i < n; i++) s.push_back(al[choose(k)]);
  return s;
}
uint32_t Src::codepoint(bool nul) {
  for (;;) {
    uint32_t r;
    switch (choose(7)) {
      case 0: r = 'a' + (uint32_t)choose(26); break;
      case 1: r = (uint32_t)choose(0x80); break;
      case 2: r = 0x80 + (uint32_t)choose(0x780); break;
      case 3: r = 0x3000 + (uint32_t)choose(0x100); break;
      case 4: { static const uint32_t e[] = {0x22, 0x5c, 0x2f, 0x8, 0xc, 0xa, 0xd, 0x9, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfffff, 0x1f, 0x20, 0, 0x2028, 0x2029, 0xfeff, 0x3000};
                r = e[choose(29)]; break; }
      case 5: r = 0x10000 + (uint32_t)choose(0x100000); break;
      default: r = (uint32_t)choose(0x110000);
    }
    if (r >= 0xd800 && r < 0xe000) r = 0xe000 + (r - 0xd800);
    if (!nul && r == 0) r = 'z';
    return r;
  }
}
void utf8_append(std::string &o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
std::string Src::utf8(size_t max, bool nul) {
  size_t n = size(max); std::string s;
  bool ascii = coin(1, 3);
  for (size_t i = 0; i < n; i++) utf8_append(s, ascii ? (uint32_t)(' ' + choose(95)) : codepoint(nul));
  return s;
}
std::string show(const std::string &s, size_t max) {
  std::string o = "\""; char b[8];
  for (size_t i = 0; i < s.size(); i++) {
    if (i >= max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch >= 0x20 && ch < 0x7f) o += (char)ch;
    else { snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
  }
  return o + "\"";
}

// ---- labels ----
static std::map<std::string, uint64_t> *g_labels = nullptr;
void Ctx::label(const char *l, uint64_t n) { (*g_labels)[l] += n; }

// ---- running one case ----
static Suite *S = nullptr;
static Ctx *g_ctx = nullptr; static std::string g_notes;
void fail_now(const std::string &m) {     // from any thread: this case has failed
  if (g_ctx && !g_notes.empty()) { std::ofstream f(g_notes); for (auto &n : g_ctx->notes) f << n << "\n"; }
  strncpy(g_slot->msg, m.c_str(), sizeof g_slot->msg - 1); g_slot->msg[sizeof g_slot->msg - 1] = 0; g_slot->state = 2;
  _exit(42);
}
const char *slot_message() { static char m[4096]; memcpy(m, g_slot->msg, sizeof m); m[4095] = 0; return m; }
static void die(int sig) {
  // only async-signal-safe work: the slot says which case was running
  if (g_slot) { g_slot->state = 2;
    const char *m = sig == SIGPROF ? "the case does not terminate (CPU limit)" : "the case does not terminate (blocked: wall-clock limit)";
    strncpy(g_slot->msg, m, sizeof g_slot->msg - 1); }
  _exit(43);
}
static void arm(bool on) {
  itimerval z; memset(&z, 0, sizeof z);
  if (on) z.it_value.tv_sec = S->cpu_limit;
  setitimer(ITIMER_PROF, &z, nullptr);
  if (on) z.it_value.tv_sec = S->wall_limit;
  setitimer(ITIMER_REAL, &z, nullptr);
}
static bool run_case(int sub, Src &s, Ctx &c, std::string &msg) {
  g_slot->n = 0; g_slot->sub = sub; g_slot->msg[0] = 0; g_slot->state = 1;
  arm(true);
  bool ok = true;
  try { S->props[sub].fn(s, c); }
  catch (const Fail &f) { ok = false; msg = f.msg; }
  catch (const std::exception &e) {
    ok = false; int st; char *d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
    msg = std::string("unexpected exception ") + (d ? d : typeid(e).name()) + ": " + e.what(); free(d);
  }
  catch (...) { ok = false; msg = "unexpected exception of unknown type"; }
  arm(false);
  g_slot->state = ok ? 3 : 2;
  if (!ok) { strncpy(g_slot->msg, msg.c_str(), sizeof g_slot->msg - 1); g_slot->msg[sizeof g_slot->msg - 1] = 0; }
  return ok;
}
static void worker_setup(const std::string &errfile, bool quiet) {
  signal(SIGPROF, die); signal(SIGALRM, die); signal(SIGPIPE, SIG_IGN);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  g_labels = new std::map<std::string, uint64_t>;
  if (S->once) S->once();
}
static std::string slurp(const std::string &f, size_t max = 1 << 20) {
  std::ifstream i(f, std::ios::binary); std::stringstream o; o << i.rdbuf(); std::string r = o.str();
  if (r.size() > max) r = r.substr(r.size() - max);
  return r;
}
// A one-line reason out of a crash log.
static std::string crash_reason(int status, const std::string &log) {
  std::string r;
  size_t p = log.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = log.find("runtime error:");
  if (p == std::string::npos) p = log.find("ERROR: LeakSanitizer");
  if (p == std::string::npos) p = log.find("terminate called");
  if (p == std::string::npos) p = log.find("Assertion");
  if (p != std::string::npos) { size_t b = log.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; r = log.substr(b, log.find('\n', p) - b); }
  else if (WIFSIGNALED(status)) r = std::string("killed by signal ") + strsignal(WTERMSIG(status));
  else r = "worker ended with exit status " + std::to_string(WEXITSTATUS(status));
  size_t f = log.find("#0 ");
  if (f != std::string::npos) {   // first frames inside the repository
    size_t q = f; int n = 0;
    while (q != std::string::npos && n < 3) {
      size_t e = log.find('\n', q); std::string line = log.substr(q, e - q);
      if (line.find("/repo/") != std::string::npos) { r += " | " + line.substr(line.find(" in ") == std::string::npos ? 0 : line.find(" in ") + 4); n++; }
      if (e == std::string::npos) break; q = log.find('#', e);
    }
  }
  return r;
}

struct Outcome { bool failed; std::string msg; std::vector<uint64_t> rec; std::vector<std::string> notes; std::string log; };
static std::string g_tmp;
// Replays a choice list in a fresh process.
static Outcome replay(int sub, const std::vector<uint64_t> &ch, Slot *slot, bool verbose) {
  Outcome o; std::string err = g_tmp + "/replay.err", nf = g_tmp + "/replay.notes";
  unlink(nf.c_str());
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    g_slot = slot; worker_setup(err, true);
    Src s; s.pre = ch.data(); s.npre = ch.size(); s.extend = false; s.seed(1);
    Ctx c; c.verbose = verbose; std::string m; g_ctx = &c; if (verbose) g_notes = nf;
    bool ok = run_case(sub, s, c, m);
    if (verbose) { std::ofstream f(nf); for (auto &n : c.notes) f << n << "\n"; }
    _exit(ok ? 0 : 42);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  o.log = slurp(err, 1 << 16);
  o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (o.failed) {
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) o.msg = slot->msg;
    else o.msg = crash_reason(st, o.log);
  }
  o.rec.assign(slot->rec, slot->rec + slot->n);
  if (verbose) { std::ifstream f(nf); for (std::string l; std::getline(f, l);) o.notes.push_back(l); }
  return o;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<uint64_t> shrink(int sub, std::vector<uint64_t> best, Slot *slot, double budget) {
  double end = now() + budget; int runs = 0;
  auto less = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (now() > end || runs > 3000) return false;
    runs++;
    Outcome o = replay(sub, cand, slot, false);
    if (!o.failed) return false;
    std::vector<uint64_t> r = o.rec;
    while (!r.empty() && r.back() == 0) r.pop_back();
    std::vector<uint64_t> cc = cand; while (!cc.empty() && cc.back() == 0) cc.pop_back();
    if (r.size() >= CAP || less(cc, r)) r = cc;
    if (less(r, best)) { best = r; return true; }
    return false;
  };
  bool progress = true;
  while (progress && now() < end && runs <= 3000) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {   // delete spans
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint64_t> cnd(best); cnd.erase(cnd.begin() + i, cnd.begin() + i + len);
        if (attempt(cnd)) progress = true; else i += len;
        if (now() > end) break;
      }
      if (len == 1) break;
    }
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {   // zero spans
      for (size_t i = 0; i + len <= best.size(); i += len) {
        std::vector<uint64_t> cnd(best); bool ch = false;
        for (size_t k = i; k < i + len; k++) if (cnd[k]) { cnd[k] = 0; ch = true; }
        if (ch && attempt(cnd)) progress = true;
        if (now() > end) break;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() < end; i++) {                         // lower values
      for (uint64_t d = best[i]; d > 0 && i < best.size(); d /= 2) {
        if (best[i] < d) { d = best[i] + 1; continue; }
        std::vector<uint64_t> cnd(best); cnd[i] -= d;
        if (attempt(cnd)) progress = true;
        if (d == 1) break;
      }
    }
  }
  return best;
}

// ---- worker loop ----
struct Entry { std::vector<uint64_t> ch; };
static uint8_t bucket(uint8_t n) { return n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 4 : n <= 7 ? 8 : n <= 15 ? 16 : n <= 31 ? 32 : n <= 127 ? 64 : 128; }
static void worker(int w, int W, uint64_t seed, const std::vector<long> &cases, double deadline, double min_until, const std::string &out, Slot *slot, long stop_sub = -1, long stop_case = -1) {
  g_slot = slot;
  size_t ncov = 0; if (cov_r) for (auto &p : *cov_r) ncov += p.second - p.first;
  std::vector<std::vector<Entry>> corpus(S->props.size());
  std::vector<std::vector<uint8_t>> seen(S->props.size(), std::vector<uint8_t>(ncov));
  std::vector<uint64_t> evals(S->props.size()), nts(S->props.size());
  std::unordered_set<uint64_t> distinct; std::vector<std::string> samples; std::vector<size_t> nsam(S->props.size());
  uint64_t guided_runs = 0, newcov = 0;
  long maxc = 0; for (long n : cases) maxc = std::max(maxc, n);
  // Interleave the sub-properties proportionally, so that a time limit cuts all of them evenly.
  const long ROUNDS = 200;
  bool stop = false;
  Src mut; mut.seed(seed * 7919 + w);
  for (long r = 0; !stop && (r < ROUNDS || now() < min_until); r++)
    for (size_t sub = 0; sub < S->props.size() && !stop; sub++) {
      long lo = cases[sub] * r / ROUNDS, hi = cases[sub] * (r + 1) / ROUNDS;
      for (long i = lo; i < hi; i++) {
        if (i % W != w) continue;
        if (now() > deadline) { stop = true; break; }
        Src s; s.seed(seed * 1000003ull + (uint64_t)i * 131 + sub * 0x9e3779b97f4a7c15ull + 17);
        std::vector<uint64_t> pre; bool guided = false;
        auto &cp = corpus[sub];
        if (S->props[sub].guided && !cp.empty() && mut.next() % 100 < 45) {
          guided = true; guided_runs++;
          pre = cp[mut.next() % cp.size()].ch;
          int k = 1 + mut.next() % 4;
          while (k-- && !pre.empty()) {
            size_t a = mut.next() % pre.size(), len = 1 + mut.next() % std::min<size_t>(8, pre.size() - a);
            switch (mut.next() % 6) {
              case 0: pre[a] = mut.next() >> (mut.next() % 64); break;
              case 1: pre[a] += (mut.next() % 2) ? 1 : -1; break;
              case 2: pre.erase(pre.begin() + a, pre.begin() + a + len); break;
              case 3: { std::vector<uint64_t> t(pre.begin() + a, pre.begin() + a + len); pre.insert(pre.begin() + a, t.begin(), t.end()); break; }
              case 4: pre.resize(a); break;
              default: { auto &o = cp[mut.next() % cp.size()].ch; if (!o.empty()) { size_t b = mut.next() % o.size(); pre.resize(a); pre.insert(pre.end(), o.begin() + b, o.end()); } }
            }
            if (pre.size() > 20000) pre.resize(20000);
          }
          s.pre = pre.data(); s.npre = pre.size();
        }
        slot->caseno = i;
        Ctx c; std::string msg;
        bool want = nsam[sub] < 2 && i >= 20; c.verbose = want;
        if (ncov && S->props[sub].guided) for (auto &p : *cov_r) memset(p.first, 0, p.second - p.first);
        bool ok = run_case((int)sub, s, c, msg);
        evals[sub]++; slot->evals[sub] = evals[sub];
        if (!ok) _exit(42);
        if ((long)sub == stop_sub && i == stop_case) _exit(0);
        if (c.is_nt) {
          nts[sub]++;
          distinct.insert(hash(slot->rec, slot->n * 8, 1469598103934665603ull + sub));
          if (want) { std::string t = std::string(S->props[sub].name) + ": "; for (auto &n : c.notes) { t += n + " ; "; if (t.size() > 1200) { t.resize(1200); t += "..."; break; } } samples.push_back(t); nsam[sub]++; }
        }
        if (ncov && S->props[sub].guided) {
          bool nw = false; size_t k = 0; auto &sn = seen[sub];
          for (auto &p : *cov_r) {
            uint8_t *q = p.first;
            for (; q < p.second; q++, k++) {
              if (((uintptr_t)q & 7) == 0) { while (q + 8 <= p.second && *(uint64_t *)q == 0) { q += 8; k += 8; } if (q >= p.second) break; }
              if (*q) { uint8_t b = bucket(*q); if (!(sn[k] & b)) { sn[k] |= b; nw = true; } }
            }
          }
          if (nw) { newcov++; if (slot->n < 20000) { Entry e; e.ch.assign(slot->rec, slot->rec + slot->n); cp.push_back(e); } }
        }
        (void)guided;
      }
    }
  // results
  std::ofstream f(out, std::ios::binary);
  f << "E"; for (auto v : evals) f << " " << v; f << "\nN"; for (auto v : nts) f << " " << v;
  f << "\nG " << guided_runs << " " << newcov << " " << (stop ? 1 : 0) << "\n";
  for (auto &l : *g_labels) f << "L " << l.second << " " << l.first << "\n";
  for (auto &sm : samples) { std::string t = sm; for (auto &ch : t) if (ch == '\n' || ch == '\r') ch = ' '; f << "S " << t << "\n"; }
  f << "D " << distinct.size() << "\n"; for (auto h : distinct) f.write((const char *)&h, 8);
  f.close();
  slot->state = 3;
  _exit(0);
}

static std::string jstr(const std::string &s) {
  std::string o = "\""; char b[8];
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; }
  return o + "\"";
}
}
using namespace pbt;

static std::string arg(int argc, char **argv, const std::string &k, const std::string &d) {
  for (int i = 1; i + 1 < argc; i++) if (argv[i] == "--" + k) return argv[i + 1];
  return d;
}
static Slot *map_slot() {
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Slot *)p;
}

int main(int argc, char **argv) {
  Suite su = suite(); S = &su;
  double t0 = now();
  std::string tier = arg(argc, argv, "tier", "quick");
  long seed = atol(arg(argc, argv, "seed", "1").c_str());
  std::string evid = arg(argc, argv, "evidence", ""), repdir = arg(argc, argv, "replay-dir", ".");
  double scale = atof(arg(argc, argv, "scale", "1").c_str());
  std::string only = arg(argc, argv, "only", "");
  g_tmp = arg(argc, argv, "tmp", "/tmp");
  mkdir(g_tmp.c_str(), 0700);
  Slot *rs = map_slot();

  std::string rep = arg(argc, argv, "replay", "");
  if (!rep.empty()) {               // replay mode
    std::ifstream f(rep); std::string line, subn; std::vector<uint64_t> ch;
    while (std::getline(f, line)) {
      if (line.compare(0, 4, "sub ") == 0) subn = line.substr(4);
      if (line.compare(0, 8, "choices ") == 0) { std::istringstream is(line.substr(8)); for (uint64_t v; is >> v;) ch.push_back(v); }
    }
    int sub = -1; for (size_t i = 0; i < su.props.size(); i++) if (su.props[i].name == subn) sub = (int)i;
    if (sub < 0) { fprintf(stderr, "unknown sub-property %s\n", subn.c_str()); return 3; }
    Outcome o = replay(sub, ch, rs, true); for (int t = 0; su.props[sub].racy && !o.failed && t < 12; t++) o = replay(sub, ch, rs, true);
    for (auto &n : o.notes) printf("  %s\n", n.c_str());
    printf("%s\n", o.failed ? ("FAILS: " + o.msg).c_str() : "holds");
    if (o.failed && !o.log.empty()) printf("%s\n", o.log.c_str());
    return o.failed ? 1 : 0;
  }

  int W = su.workers; if (const char *e = getenv("PBT_WORKERS")) W = atoi(e);
  std::vector<long> cases;
  for (auto &p : su.props) { long n = tier == "thorough" ? p.thorough : p.quick; n = (long)(n * scale); if (!only.empty() && only != p.name) n = 0; cases.push_back(n); }
  if (const char *e = getenv("PBT_QUICK_S")) { su.quick_s = atof(e); su.quick_min_s = std::min(su.quick_min_s, su.quick_s); }
  double deadline = t0 + (tier == "thorough" ? su.thorough_s : su.quick_s) * std::max(1.0, scale);
  double min_until = t0 + (tier == "thorough" ? su.thorough_min_s : su.quick_min_s) * std::min(1.0, scale);
  std::vector<Slot *> slots; std::vector<pid_t> pids(W); std::vector<std::string> errs(W), outs(W);
  for (int w = 0; w < W; w++) slots.push_back(map_slot());
  int fail_w = -1, fail_st = 0; int live = 0; long unrep = 0; std::string lastun;
  std::set<int> done;
  for (int w = 0; w < W; w++) {
    errs[w] = g_tmp + "/w" + std::to_string(w) + ".err"; outs[w] = g_tmp + "/w" + std::to_string(w) + ".out"; unlink(outs[w].c_str());
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { worker_setup(errs[w], true); worker(w, W, (uint64_t)seed, cases, deadline, min_until, outs[w], slots[w]); _exit(0); }
    pids[w] = pid; live++;
  }
  long violations = 0; std::string vfile, vmsg;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int i = 0; i < W; i++) if (pids[i] == p) w = i;
    if (w < 0) continue;
    live--; pids[w] = -1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { done.insert(w); continue; }
    if (violations) continue;
    // a failure: confirm it in fresh processes
    int sub = slots[w]->sub; std::vector<uint64_t> ch(slots[w]->rec, slots[w]->rec + slots[w]->n);
    std::string why = (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) ? std::string(slots[w]->msg) : crash_reason(st, slurp(errs[w], 1 << 16));
    fprintf(stderr, "[pbt] %s/%s case %ld: %s\n", su.property, su.props[sub].name, slots[w]->caseno, why.c_str());
    const int tries = su.props[sub].racy ? 12 : su.confirm_tries, need = su.props[sub].racy ? 2 : su.confirm_need;
    int bad = 0; for (int t = 0; t < tries && bad < need; t++) if (replay(sub, ch, rs, false).failed) bad++;
    bool seqrep = false;
    if (bad < need) {      // does it depend on what the process did before?  Re-run the whole worker up to that case.
      int again = 0; long cn = slots[w]->caseno;
      for (int t = 0; t < 2; t++) {
        fflush(stdout); pid_t pid = fork();
        if (pid == 0) { worker_setup(g_tmp + "/seq.err", true); worker(w, W, (uint64_t)seed, cases, 1e18, 1e18, g_tmp + "/seq.out", rs, sub, cn); _exit(0); }
        int st2 = 0; while (waitpid(pid, &st2, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st2) && WEXITSTATUS(st2) == 0) && rs->caseno == cn && rs->sub == sub) again++; else break;
      }
      seqrep = again == 2;
    }
    if (seqrep) {
      for (int i = 0; i < W; i++) if (pids[i] > 0) kill(pids[i], SIGKILL);
      violations++; vmsg = why + " (after the preceding cases of the same process)";
      mkdir(repdir.c_str(), 0755); vfile = repdir + "/" + su.property + ".replay";
      std::ofstream f(vfile);
      f << "property " << su.property << "\nsub " << su.props[sub].name << "\nseed " << seed << "\nreason " << vmsg << "\nsequence worker " << w << " of " << W << " tier " << tier << " scale " << scale << " case " << slots[w]->caseno << "\nchoices";
      for (auto v : ch) f << " " << v; f << "\n"; f.close();
      printf("reason: %s\n", vmsg.c_str());
      continue;
    }
    if (bad < need) { unrep++; lastun = su.props[sub].name + std::string(": ") + why; fprintf(stderr, "[pbt] reproduced %d of %d times: not reported\n", bad, tries); continue; }
    for (int i = 0; i < W; i++) if (pids[i] > 0) kill(pids[i], SIGKILL);
    std::vector<uint64_t> sm = shrink(sub, ch, rs, tier == "thorough" ? 90 : 45);
    auto rerun = [&](const std::vector<uint64_t> &v) { Outcome x = replay(sub, v, rs, true); for (int t = 0; su.props[sub].racy && !x.failed && t < 12; t++) x = replay(sub, v, rs, true); return x; };
    Outcome o = rerun(sm);
    if (!o.failed) { sm = ch; o = rerun(sm); }
    violations++; vmsg = o.failed ? o.msg : why;
    mkdir(repdir.c_str(), 0755);
    vfile = repdir + "/" + su.property + ".replay";
    std::ofstream f(vfile);
    f << "property " << su.property << "\nsub " << su.props[sub].name << "\nseed " << seed << "\nreason " << vmsg << "\n";
    for (auto &n : o.notes) f << "note " << n << "\n";
    f << "choices"; for (auto v : sm) f << " " << v; f << "\n";
    if (!o.log.empty()) f << "log\n" << o.log.substr(0, 6000) << "\n";
    f.close();
    printf("reason: %s\n", vmsg.c_str()); for (auto &n : o.notes) printf("  %s\n", n.substr(0, 600).c_str());
  }
  (void)fail_w; (void)fail_st;
  // merge results
  std::vector<uint64_t> ev(su.props.size()), nt(su.props.size()); std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct; uint64_t guided = 0, newcov = 0; bool cut = false;
  for (int w : done) {
    std::ifstream f(outs[w], std::ios::binary); std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line.substr(1));
      if (line[0] == 'E') for (auto &v : ev) { uint64_t x; if (is >> x) v += x; }
      if (line[0] == 'N') for (auto &v : nt) { uint64_t x; if (is >> x) v += x; }
      if (line[0] == 'G') { uint64_t a, b; int s; is >> a >> b >> s; guided += a; newcov += b; if (s) cut = true; }
      if (line[0] == 'L') { uint64_t n; is >> n; std::string l; std::getline(is, l); labels[l.substr(1)] += n; }
      if (line[0] == 'S' && samples.size() < 12) { static std::map<std::string, int> per; std::string t = line.substr(2); std::string nm = t.substr(0, t.find(':')); if (per[nm]++ < 2) samples.push_back(t); }
      if (line[0] == 'D') { size_t n; is >> n; for (size_t i = 0; i < n; i++) { uint64_t h; f.read((char *)&h, 8); distinct.insert(h); } break; }
    }
  }
  for (int w = 0; w < W; w++) if (!done.count(w)) for (size_t i = 0; i < ev.size(); i++) ev[i] += slots[w]->evals[i];
  uint64_t tot = 0; for (auto v : ev) tot += v;
  if (!evid.empty()) {
    std::ofstream f(evid);
    f << "{\n \"property\": " << jstr(su.property) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << tot << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(su.rule) << ",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n   " : "\n   ") << jstr(samples[i]);
    f << "],\n  \"per_generator\": {";
    for (size_t i = 0; i < su.props.size(); i++) f << (i ? ", " : "") << jstr(su.props[i].name) << ": {\"cases\": " << ev[i] << ", \"nontrivial\": " << nt[i] << "}";
    f << "},\n  \"classes\": {"; bool first = true;
    for (auto &l : labels) { f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    f << "},\n  \"coverage_guided_cases\": " << guided << ",\n  \"cases_that_reached_new_code\": " << newcov << ",\n  \"cut_by_time_budget\": " << (cut ? "true" : "false") << ",\n  \"unreproduced_failures\": " << unrep << ",\n  \"workers\": " << W << "\n },\n \"assumptions\": [";
    for (size_t i = 0; i < su.assumptions.size(); i++) f << (i ? ", " : "") << jstr(su.assumptions[i]);
    f << "],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
  }
  printf("%s %s seed=%ld: %llu cases, %zu distinct non-trivial, %.1f s%s\n", su.property, tier.c_str(), seed, (unsigned long long)tot, distinct.size(), now() - t0, cut ? " (time budget)" : "");
  if (unrep) printf("note: %ld failure(s) did not reproduce in a fresh process and are not reported (last: %s)\n", unrep, lastun.c_str());
  if (violations) { printf("VIOLATION property=%s replay=%s\n", su.property, vfile.c_str()); fflush(stdout); return 1; }
  fflush(stdout);
  return 0;
}
