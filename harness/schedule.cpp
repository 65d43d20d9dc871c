// See schedule.h.  This file is compiled without memory-access instrumentation.
#include "schedule.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <exception>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace pbt { [[noreturn]] void fail_now(const std::string &); }
extern "C" {
int __interceptor_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) __attribute__((weak));
int __interceptor_pthread_join(pthread_t, void **) __attribute__((weak));
int __interceptor_pthread_detach(pthread_t) __attribute__((weak));
}
namespace {
template <class F> F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]() { static auto f = next<decltype(&name)>(#name); return f; }())
long raw_futex(int *a, int op, int v) {
  long r; register long r10 __asm__("r10") = 0; register long r8 __asm__("r8") = 0; register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
enum Kind { RUN, MUTEX, COND, RDLOCK, WRLOCK, JOIN, SLEEP, FUTEX, QUIESCE, DONE };
const char *kind_name[] = {"ready", "waiting for a mutex", "waiting on a condition", "waiting for a read lock", "waiting for a write lock", "joining", "sleeping", "waiting on a futex", "quiescing", "finished"};
const int64_t NEVER = INT64_MAX;
struct T {
  int id = 0, go = 0; Kind st = RUN; const void *obj = nullptr; int64_t deadline = NEVER; bool woken = false, timed_out = false;
  pthread_t tid = 0; bool has_tid = false, detached = false, joined = false, harness = false; void *(*fn)(void *) = nullptr; void *arg = nullptr;
  void *result = nullptr; std::function<void()> f; int64_t latest = 0; bool exited = false;
};
struct M { T *owner = nullptr; int count = 0; };
struct RW { T *writer = nullptr; std::vector<T *> readers; };
struct State {
  pbt::Src *s; sched::Opt opt; std::vector<T *> ts; std::map<const void *, M> mx; std::map<const void *, RW> rw;
  int64_t now; unsigned scale, sync; bool spur, jump; uint64_t points = 0, sw = 0, seqno = 0; int failed = 0; int quiet = 0; int64_t saved = 0;
};
State *A = nullptr;                       // non-null while a case is running
thread_local T *me = nullptr;
const int64_t BASE = 1700000000ll * 1000000, MONO = 1690000000ll * 1000000;
int64_t g_countdown = INT64_MAX;
const uint64_t MAX_POINTS = 300000, FORCE = 20000;

bool on() { return A && me && me->st != DONE; }
void touch(const void *p) { (void)*(volatile const char *)p; }
void draw_gap() {
  if (!A->scale) { g_countdown = FORCE; return; }
  uint64_t g = A->s->choose(2 * A->scale + 1);
  g_countdown = g == 0 ? FORCE : (int64_t)g;
}
void hand(T *t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1); }
void await(T *t) { while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0); t->go = 0; }
bool runnable(T *t) { return t->st == RUN || (t->st != DONE && t->deadline <= A->now); }
// The current thread's state is set; picks who runs next.
void reschedule(bool other = false) {
  A->sw++;
  A->now++;
  T *self = me;
  if (A->jump && A->s->coin(1, 12)) {      // time passes up to some deadline although others could run
    int64_t d = NEVER; for (T *t : A->ts) if (t->st != DONE && t->st != RUN && t->deadline > A->now) d = std::min(d, t->deadline);
    if (d != NEVER) A->now = d + 1;
  }
  if (A->spur && A->s->coin(1, 12)) {
    std::vector<T *> w; for (T *t : A->ts) if (t->st == COND && !t->woken) w.push_back(t);
    if (!w.empty()) { T *t = w[A->s->choose(w.size())]; t->woken = true; t->st = RUN; }
  }
  for (;;) {
    std::vector<T *> c; for (T *t : A->ts) if (runnable(t) && !(other && t == self)) c.push_back(t);
    if (c.empty() && other && runnable(self)) c.push_back(self);
    if (!c.empty()) {
      T *n = c.size() == 1 ? c[0] : c[A->s->choose(c.size())];
      if (n->st != RUN) { n->timed_out = true; n->st = RUN; }
      n->deadline = NEVER;
      draw_gap();
      if (n == self) return;
      int e = errno; hand(n);
      if (self->st == DONE) return;
      await(self); errno = e;
      return;
    }
    int64_t d = NEVER; for (T *t : A->ts) if (t->st != DONE) d = std::min(d, t->deadline);
    if (d != NEVER) { A->now = std::max(A->now, d); continue; }
    T *q = nullptr; for (T *t : A->ts) if (t->st == QUIESCE) q = t;
    if (q) { q->st = RUN; continue; }
    sched::fail("deadlock: no thread can ever run again:" + sched::where());
  }
}
// Blocks the current thread; true: woken, false: its deadline passed.
bool block(Kind k, const void *obj, int64_t deadline = NEVER) {
  T *t = me; t->st = k; t->obj = obj; t->deadline = deadline; t->woken = t->timed_out = false;
  if (deadline != NEVER) t->latest = std::max(t->latest, deadline);
  reschedule();
  t->obj = nullptr; t->deadline = NEVER;
  return !t->timed_out;
}
void wake(Kind k, const void *obj) { for (T *t : A->ts) if (t->st == k && t->obj == obj) { t->st = RUN; t->woken = true; } }
void preempt(bool other) { if (A->quiet) return; reschedule(other); }
void sync_point() { if (A->quiet) return; if (A->sync && A->s->coin(A->sync, 8)) reschedule(true); }
bool bad_ts(const timespec *t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }
int64_t us(const timespec *t, clockid_t clk) {
  if (t->tv_sec < 0) return 0;
  __int128 v = (__int128)t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000 + (clk == CLOCK_MONOTONIC ? MONO : 0);
  return v > NEVER - 1 ? NEVER - 1 : (int64_t)v;
}
int mutex_kind(const pthread_mutex_t *m) { return m->__data.__kind & 3; }
int m_lock(pthread_mutex_t *m, int64_t deadline, bool try_) {
  for (;;) {
    touch(m); M &x = A->mx[m];
    if (!x.owner) { x.owner = me; x.count = 1; return 0; }
    if (x.owner == me) {
      if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
      if (mutex_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return try_ ? EBUSY : EDEADLK;
    }
    if (try_) return EBUSY;
    if (!block(MUTEX, m, deadline)) return ETIMEDOUT;
  }
}
int m_unlock(pthread_mutex_t *m) {
  touch(m); M &x = A->mx[m];
  if (mutex_kind(m) != PTHREAD_MUTEX_NORMAL && x.owner != me) return EPERM;
  if (x.owner && --x.count > 0) return 0;
  x.owner = nullptr; wake(MUTEX, m);
  return 0;
}
int c_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
  touch(c); touch(m);
  int depth = A->mx[m].count; (void)depth;
  int r = m_unlock(m); if (r) return r;
  bool w = block(COND, c, deadline);
  r = m_lock(m, NEVER, false);
  return r ? r : w ? 0 : ETIMEDOUT;
}
bool rw_pref(const pthread_rwlock_t *l) { return l->__data.__flags == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP; }
bool writer_waits(const pthread_rwlock_t *l) { for (T *t : A->ts) if (t->st == WRLOCK && t->obj == l) return true; return false; }
void rw_wake(const pthread_rwlock_t *l) { wake(RDLOCK, l); wake(WRLOCK, l); }
int rd_lock(pthread_rwlock_t *l, int64_t deadline, bool try_) {
  for (;;) {
    touch(l); RW &x = A->rw[l];
    if (x.writer == me && !try_) return EDEADLK;
    if (!x.writer && !(rw_pref(l) && writer_waits(l))) { x.readers.push_back(me); return 0; }
    if (try_) return EBUSY;
    if (!block(RDLOCK, l, deadline)) return ETIMEDOUT;
  }
}
int wr_lock(pthread_rwlock_t *l, int64_t deadline, bool try_) {
  for (;;) {
    touch(l); RW &x = A->rw[l];
    if (x.writer == me && !try_) return EDEADLK;
    if (!x.writer && x.readers.empty()) { x.writer = me; return 0; }
    if (try_) return EBUSY;
    if (!block(WRLOCK, l, deadline)) { rw_wake(l); return ETIMEDOUT; }
  }
}
void *trampoline(void *p) {
  T *t = (T *)p; await(t); me = t;
  t->result = t->fn(t->arg);
  t->st = DONE; wake(JOIN, t);
  g_countdown = INT64_MAX;
  reschedule();
  return t->result;
}
int start(T *t, const pthread_attr_t *attr) {
  t->id = (int)A->ts.size();
  static auto rc = __interceptor_pthread_create ? &__interceptor_pthread_create : next<decltype(&pthread_create)>("pthread_create");
  int r = rc(&t->tid, attr, trampoline, t);
  if (r) return r;
  t->has_tid = true; A->ts.push_back(t);
  return 0;
}
int real_join(pthread_t t) {
  static auto rj = __interceptor_pthread_join ? &__interceptor_pthread_join : next<int (*)(pthread_t, void **)>("pthread_join");
  return rj(t, nullptr);
}
void *run_harness(void *p) {
  T *t = (T *)p;
  try { t->f(); }
  catch (const pbt::Fail &f) { sched::fail(f.msg); }
  catch (const std::exception &e) { sched::fail(std::string("unexpected exception in a thread: ") + e.what()); }
  return nullptr;
}
}

namespace sched {
void fail(const std::string &m) { g_countdown = INT64_MAX; pbt::fail_now(m); }
std::string where() {
  std::string r; if (!A) return r;
  for (T *t : A->ts) r += " t" + std::to_string(t->id) + " " + kind_name[t->st] + (t->deadline != NEVER ? " (timed)" : "") + ";";
  return r;
}
Session::Session(pbt::Src &s, pbt::Ctx &, Opt o) {
  static bool pinned = false;
  if (!pinned) {                           // one processor is enough, and hand-over is cheaper on one
    pinned = true; cpu_set_t all; CPU_ZERO(&all);
    if (sched_getaffinity(0, sizeof all, &all) == 0) {
      std::vector<int> v; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) v.push_back(i);
      if (!v.empty()) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(v[getpid() % v.size()], &one); sched_setaffinity(0, sizeof one, &one); }
    }
  }
  A = new State; A->s = &s; A->opt = o;
  T *t = new T; A->ts.push_back(t); me = t;
  static const unsigned sc[] = {0, 4, 16, 64, 256, 1024}, sy[] = {0, 1, 3};
  A->scale = sc[s.choose(6)]; A->sync = sy[s.choose(3)];
  static const int64_t frac[] = {0, 999999, 999000, 500000};
  uint64_t f = s.choose(6); A->now = BASE + (f < 4 ? frac[f] : (int64_t)s.choose(1000000));
  A->spur = o.spurious && s.coin(1, 3); A->jump = o.jumps && s.coin(1, 3);
  draw_gap();
}
Session::~Session() {
  g_countdown = INT64_MAX;
  if (std::uncaught_exceptions()) { A = nullptr; me = nullptr; return; }    // the case has failed: the other threads stay where they are
  for (T *t : A->ts) if (t != me && t->st != DONE) fail("a thread is left when the case ends:" + where());
  State *a = A; A = nullptr;
  for (T *t : a->ts) { if (t->has_tid && !t->joined && !t->detached) real_join(t->tid); }
  // detached threads may still be on their way out: they only touch their own T after this
  for (T *t : a->ts) if (!t->detached) delete t;
  me = nullptr; delete a;
}
int spawn(std::function<void()> f) {
  T *t = new T; t->f = std::move(f); t->fn = run_harness; t->arg = t; t->harness = true;
  if (start(t, nullptr)) { perror("thread"); _exit(0); }      // the sandbox refuses: not a verdict about the code
  return t->id;
}
void join_all() {
  for (size_t i = 0; i < A->ts.size(); i++) { T *t = A->ts[i]; if (!t->harness) continue; while (t->st != DONE) block(JOIN, t); }
}
Rest::Rest() {
  block(QUIESCE, nullptr);
  if (A->quiet++ == 0) { A->saved = g_countdown; g_countdown = INT64_MAX; }
  for (T *t : A->ts) if (t != me && t->st != DONE) blocked.push_back(t->id);
}
Rest::~Rest() { if (A && --A->quiet == 0) g_countdown = A->saved; }
int self() { return me ? me->id : -1; }
int64_t now() { return A->now; }
bool jumps() { return A->jump; }
bool spurious() { return A->spur; }
int64_t latest_deadline() { return me->latest; }
void reset_deadline() { me->latest = 0; }
int unreaped() { int n = 0; for (T *t : A->ts) if (t->has_tid && !t->harness && t->st == DONE && !t->joined && !t->detached) n++; return n; }
int failed_creates() { return A->failed; }
uint64_t switches() { return A ? A->sw : 0; }
void point() { if (on()) sync_point(); }
uint64_t seq() { return ++A->seqno; }
Quiet::Quiet() { if (A && A->quiet++ == 0) { A->saved = g_countdown; g_countdown = INT64_MAX; } }
Quiet::~Quiet() { if (A && --A->quiet == 0) g_countdown = A->saved; }
}

// ---- preemption points ----
static void __attribute__((noinline)) slow() {
  if (!on() || A->quiet) { g_countdown = INT64_MAX; return; }
  if ((A->points += 1) > MAX_POINTS) sched::fail("the case does not terminate:" + sched::where());
  g_countdown = INT64_MAX;
  reschedule(true);
}
#define HOOK(n) extern "C" void n(void *) { if (--g_countdown <= 0) slow(); }
HOOK(__sanitizer_cov_load1) HOOK(__sanitizer_cov_load2) HOOK(__sanitizer_cov_load4) HOOK(__sanitizer_cov_load8) HOOK(__sanitizer_cov_load16)
HOOK(__sanitizer_cov_store1) HOOK(__sanitizer_cov_store2) HOOK(__sanitizer_cov_store4) HOOK(__sanitizer_cov_store8) HOOK(__sanitizer_cov_store16)

// ---- the POSIX functions ----
extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  static auto rc = __interceptor_pthread_create ? &__interceptor_pthread_create : next<decltype(&pthread_create)>("pthread_create");
  if (!on()) return rc(th, attr, fn, arg);
  if (A->opt.create_fails && A->s->coin(1, 4)) { A->failed++; return EAGAIN; }
  T *t = new T; t->fn = fn; t->arg = arg;
  int ds = PTHREAD_CREATE_JOINABLE; if (attr) pthread_attr_getdetachstate(attr, &ds);
  int r = start(t, attr); if (r) { delete t; return r; }
  t->detached = ds == PTHREAD_CREATE_DETACHED; *th = t->tid;
  sync_point();
  return 0;
}
static T *find(pthread_t th) { for (size_t i = A->ts.size(); i-- > 0;) if (A->ts[i]->has_tid && pthread_equal(A->ts[i]->tid, th) && !A->ts[i]->joined) return A->ts[i]; return nullptr; }
int pthread_join(pthread_t th, void **ret) {
  static auto rj = __interceptor_pthread_join ? &__interceptor_pthread_join : next<int (*)(pthread_t, void **)>("pthread_join");
  if (!on()) return rj(th, ret);
  sync_point();
  T *t = find(th); if (!t || t->detached) sched::fail("pthread_join of a thread that does not exist, was joined or detached (undefined behaviour)"); if (t == me) return EDEADLK;
  while (t->st != DONE) block(JOIN, t);
  if (t->joined) return ESRCH;
  t->joined = true; real_join(t->tid);
  if (ret) *ret = t->result;
  return 0;
}
int pthread_detach(pthread_t th) {
  static auto rd = __interceptor_pthread_detach ? &__interceptor_pthread_detach : next<decltype(&pthread_detach)>("pthread_detach");
  if (!on()) return rd(th);
  sync_point();
  T *t = find(th); if (!t || t->detached) sched::fail("pthread_detach of a thread that does not exist, was joined or detached (undefined behaviour)");
  t->detached = true; rd(th);
  return 0;
}
#define IFREAL(name, ...) if (!on()) return REAL(name)(__VA_ARGS__)
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (on()) A->mx.erase(m); return REAL(pthread_mutex_init)(m, a); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!on()) return REAL(pthread_mutex_destroy)(m); touch(m); auto i = A->mx.find(m); if (i != A->mx.end()) { if (i->second.owner) return EBUSY; A->mx.erase(i); } return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { IFREAL(pthread_mutex_lock, m); sync_point(); int r = m_lock(m, NEVER, false); sync_point(); return r; }
int pthread_mutex_trylock(pthread_mutex_t *m) { IFREAL(pthread_mutex_trylock, m); sync_point(); return m_lock(m, NEVER, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) {
  IFREAL(pthread_mutex_timedlock, m, t); sync_point(); int r = m_lock(m, NEVER, true); if (r != EBUSY) return r;
  if (bad_ts(t)) return EINVAL; return m_lock(m, us(t, CLOCK_REALTIME), false);
}
int pthread_mutex_unlock(pthread_mutex_t *m) { IFREAL(pthread_mutex_unlock, m); sync_point(); int r = m_unlock(m); sync_point(); return r; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return REAL(pthread_cond_init)(c, a); }
int pthread_cond_destroy(pthread_cond_t *c) { if (!on()) return REAL(pthread_cond_destroy)(c); touch(c); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { IFREAL(pthread_cond_wait, c, m); sync_point(); return c_wait(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
  IFREAL(pthread_cond_timedwait, c, m, t); sync_point(); if (bad_ts(t)) return EINVAL;
  return c_wait(c, m, us(t, c->__data.__wrefs & 2 ? CLOCK_MONOTONIC : CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) {
  IFREAL(pthread_cond_clockwait, c, m, k, t); sync_point(); if (bad_ts(t)) return EINVAL; return c_wait(c, m, us(t, k));
}
int pthread_cond_signal(pthread_cond_t *c) {
  IFREAL(pthread_cond_signal, c); sync_point(); touch(c);
  std::vector<T *> w; for (T *t : A->ts) if (t->st == COND && t->obj == c) w.push_back(t);
  if (!w.empty()) { T *t = w.size() == 1 ? w[0] : w[A->s->choose(w.size())]; t->st = RUN; t->woken = true; }
  sync_point(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { IFREAL(pthread_cond_broadcast, c); sync_point(); touch(c); wake(COND, c); sync_point(); return 0; }
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { if (on()) A->rw.erase(l); return REAL(pthread_rwlock_init)(l, a); }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { if (!on()) return REAL(pthread_rwlock_destroy)(l); touch(l); A->rw.erase(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { IFREAL(pthread_rwlock_rdlock, l); sync_point(); int r = rd_lock(l, NEVER, false); sync_point(); return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { IFREAL(pthread_rwlock_wrlock, l); sync_point(); int r = wr_lock(l, NEVER, false); sync_point(); return r; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { IFREAL(pthread_rwlock_tryrdlock, l); sync_point(); return rd_lock(l, NEVER, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { IFREAL(pthread_rwlock_trywrlock, l); sync_point(); return wr_lock(l, NEVER, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const timespec *t) { IFREAL(pthread_rwlock_timedrdlock, l, t); sync_point(); if (bad_ts(t)) return EINVAL; return rd_lock(l, us(t, CLOCK_REALTIME), false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const timespec *t) { IFREAL(pthread_rwlock_timedwrlock, l, t); sync_point(); if (bad_ts(t)) return EINVAL; return wr_lock(l, us(t, CLOCK_REALTIME), false); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  IFREAL(pthread_rwlock_unlock, l); sync_point(); touch(l); RW &x = A->rw[l];
  if (x.writer) x.writer = nullptr;
  else { auto i = std::find(x.readers.begin(), x.readers.end(), me); if (i == x.readers.end() && !x.readers.empty()) i = x.readers.begin(); if (i != x.readers.end()) x.readers.erase(i); }
  rw_wake(l); sync_point(); return 0;
}
static int sleep_until(int64_t d) { if (d <= A->now) { preempt(true); return 0; } block(SLEEP, nullptr, d); return 0; }
int nanosleep(const timespec *r, timespec *rem) {
  IFREAL(nanosleep, r, rem);
  if (bad_ts(r) || r->tv_sec < 0) { errno = EINVAL; return -1; }
  timespec z = *r; int64_t d = us(&z, CLOCK_REALTIME); d = d > NEVER - 1 - A->now ? NEVER - 1 : d + A->now;
  if (A->opt.signals && d > A->now && A->s->coin(1, 3)) { int64_t w = (d - A->now) * (int64_t)A->s->choose(4) / 4, left = d - A->now - w; sleep_until(A->now + w); if (rem) { rem->tv_sec = left / 1000000; rem->tv_nsec = left % 1000000 * 1000; } errno = EINTR; return -1; }
  return sleep_until(d);
}
int clock_nanosleep(clockid_t k, int flags, const timespec *r, timespec *rem) {
  IFREAL(clock_nanosleep, k, flags, r, rem);
  if (bad_ts(r)) return EINVAL;
  return sleep_until(flags & TIMER_ABSTIME ? us(r, k) : A->now + us(r, CLOCK_REALTIME));
}
int usleep(useconds_t u) { IFREAL(usleep, u); return sleep_until(A->now + u); }
unsigned sleep(unsigned s) { IFREAL(sleep, s); sleep_until(A->now + (int64_t)s * 1000000); return 0; }
int sched_yield() { IFREAL(sched_yield); preempt(true); return 0; }
int gettimeofday(struct timeval *tv, void *tz) {
  if (!on()) { timespec t; int r = REAL(clock_gettime)(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return r; }
  A->now++; tv->tv_sec = A->now / 1000000; tv->tv_usec = A->now % 1000000; return 0;
}
int clock_gettime(clockid_t k, timespec *t) {
  if (!on() || (k != CLOCK_REALTIME && k != CLOCK_MONOTONIC && k != CLOCK_REALTIME_COARSE && k != CLOCK_MONOTONIC_COARSE && k != CLOCK_MONOTONIC_RAW && k != CLOCK_BOOTTIME)) return REAL(clock_gettime)(k, t);
  A->now++; int64_t v = A->now - (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? 0 : MONO); t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000; return 0;
}
time_t time(time_t *p) {
  time_t r;
  if (!on()) { timespec t; REAL(clock_gettime)(CLOCK_REALTIME, &t); r = t.tv_sec; } else r = A->now / 1000000;
  if (p) *p = r; return r;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (on() && n == SYS_futex) {
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; } block(FUTEX, (void *)a); return 0; }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { long k = 0; for (T *t : A->ts) if (k < (int)c && t->st == FUTEX && t->obj == (void *)a) { t->st = RUN; t->woken = true; k++; } sync_point(); return k; }
  }
  return REAL(syscall)(n, a, b, c, d, e, f);
}
}
