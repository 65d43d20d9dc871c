// C33: locks exclude, nest, time out and release as promised under every interleaving.
#include "lincheck.h"
#include <concurrent/mutex.h>
#include <concurrent/rwmutex.h>
#include <concurrent/thread.h>
using namespace pbt;
using namespace pfi::concurrent;
namespace {
// Who is inside, and who is near the lock (from the start of an attempt to the end of the release).
struct Monitor {
  int writer = -1; std::vector<int> readers; int near_w = 0, near_r = 0; uint64_t w_seen = 0, r_seen = 0; int shared_max = 0;
  void come(bool w) { sched::Quiet q; (w ? near_w : near_r)++; (w ? w_seen : r_seen)++; }
  void gone(bool w) { sched::Quiet q; (w ? near_w : near_r)--; }
  void in(bool w) {
    sched::Quiet q; int me = sched::self();
    CHECK(writer < 0, "thread " << me << (w ? " is in exclusively" : " reads") << " while thread " << writer << " is in exclusively");
    if (w) { CHECK(readers.empty(), "thread " << me << " is in exclusively while " << readers.size() << " readers are"); writer = me; }
    else { readers.push_back(me); shared_max = std::max(shared_max, (int)readers.size()); }
  }
  void out(bool w) {
    sched::Quiet q; int me = sched::self();
    if (w) { CHECK(writer == me, "thread " << me << " lost its exclusive lock"); writer = -1; }
    else { CHECK(writer < 0, "a writer is in together with a reader"); for (size_t i = 0; i < readers.size(); i++) if (readers[i] == me) { readers.erase(readers.begin() + i); return; } }
  }
  void still(bool w) { sched::Quiet q; if (w) CHECK(writer == sched::self() && readers.empty(), "somebody entered an exclusive section"); else CHECK(writer < 0, "a writer entered while a reader is in"); }
};
void work(double hold, Monitor &m, bool w, volatile int *cell) {
  int v = *cell; sched::point(); if (hold > 0) thread::sleep(hold); else if (hold < 0) thread::yield();
  m.still(w); if (w) *cell = v + 1; else CHECK(*cell == v, "the data changed under a read lock");
}
struct Boom {};
// ---- mutex and r_mutex ----
struct Sec { int depth, how; double hold; bool boom, foreign; std::vector<int> ways; };
template <class M> void nest(M &m, const Sec &s, size_t d, Monitor &mon, volatile int *cell) {
  if (d == s.ways.size()) { work(s.hold, mon, true, cell); if (s.boom) throw Boom(); return; }
  switch (s.ways[d]) {
    case 0: CHECK(m.lock(), "lock() by the holder fails"); try { nest(m, s, d + 1, mon, cell); } catch (Boom &) { mon.still(true); CHECK(m.unlock(), "unlock() fails"); throw; } mon.still(true); CHECK(m.unlock(), "unlock() by the holder fails"); mon.still(true); break;
    case 1: { scoped_lock lk(m); CHECK(lk.locked() && lk, "a scoped lock of the holder fails"); nest(m, s, d + 1, mon, cell); break; }
    default: synchronized(m) { nest(m, s, d + 1, mon, cell); }
  }
  mon.still(true);
}
template <class M> void exclusive(Src &s, Ctx &c, bool rec) {
  int nt = (int)s.range(2, 4); std::vector<std::vector<Sec>> prog(nt); int total = 0;
  for (auto &p : prog) { int n = (int)s.range(1, 3); while (n--) {
    Sec x; x.how = (int)s.choose(3); x.hold = s.pick({0.0, -1.0, 0.5}); x.boom = s.coin(1, 5); x.foreign = rec && s.coin(1, 3);
    int d = rec ? (int)s.choose(4) : 0; for (int i = 0; i < d; i++) x.ways.push_back((int)s.choose(3)); p.push_back(x); total++; } }
  sched::Session ses(s, c);
  M m; Monitor mon; volatile int cell = 0; int deep = 0;
  for (auto &p : prog) sched::spawn([&] { for (auto &x : p) {
    if (x.foreign) CHECK(!m.unlock(), "a recursive mutex is unlocked by a thread that does not hold it");
    try {
      if (x.how == 0) {
        CHECK(m.lock(), "lock() fails"); mon.in(true);
        try { nest(m, x, 0, mon, &cell); } catch (Boom &) { mon.out(true); CHECK(m.unlock(), "unlock() fails"); throw; }
        mon.out(true); CHECK(m.unlock(), "unlock() fails");
      } else if (x.how == 1) {
        scoped_lock lk(m); CHECK(lk.locked(), "a scoped lock is not locked"); mon.in(true);
        struct Out { Monitor &m; ~Out() { m.out(true); } } o{mon}; nest(m, x, 0, mon, &cell);
      } else synchronized(m) { mon.in(true); struct Out { Monitor &m; ~Out() { m.out(true); } } o{mon}; nest(m, x, 0, mon, &cell); }
    } catch (Boom &) {}
    if (x.foreign) CHECK(!m.unlock(), "a recursive mutex is unlocked more often than it was locked");
  } });
  sched::join_all();
  for (auto &p : prog) for (auto &x : p) deep = std::max(deep, 1 + (int)x.ways.size());
  CHECK(cell == total, "of " << total << " exclusive increments, " << cell << " are left");
  NOTE(nt << " threads, " << total << " sections, depth up to " << deep << ", " << sched::switches() << " switches"); c.nt(sched::switches() > (uint64_t)nt * 2);
}
void plain(Src &s, Ctx &c) { exclusive<mutex>(s, c, false); }
void recursive(Src &s, Ctx &c) { exclusive<r_mutex>(s, c, true); }
// ---- rw_mutex ----
struct Rw { bool w; int how; double sec; double hold; bool boom; };
void rw(Src &s, Ctx &c) {
  int nt = (int)s.range(2, 4); std::vector<std::vector<Rw>> prog(nt); int kind = (int)s.choose(4);
  for (auto &p : prog) { int n = (int)s.range(1, 4); while (n--) {
    Rw x; x.w = s.coin(); if (kind == 1) x.w = false; x.how = (int)s.choose(5); x.sec = s.pick({-1.0, 0.0, 0.000001, 0.3, 2.0, 1.0, 0.999999, 1e-10, 0.001, 0.02});
    if (kind == 2) x.sec = -1;
    x.hold = s.pick({0.0, -1.0, 0.5, 1.5}); x.boom = s.coin(1, 5); p.push_back(x); } }
  sched::Session ses(s, c);
  rw_mutex m; Monitor mon; volatile int cell = 0; int writes = 0, fails = 0, wins = 0;
  for (auto &p : prog) sched::spawn([&] { for (auto &x : p) {
    // x.sec < 0: no time limit.  An attempt that nobody competes with must succeed.
    int64_t t0; uint64_t w0, r0; int nw, nr;
    { sched::Quiet q; nw = mon.near_w; nr = mon.near_r; mon.come(x.w); w0 = mon.w_seen; r0 = mon.r_seen; t0 = sched::now(); }
    auto result = [&](bool ok) {
      sched::Quiet q; double el = (sched::now() - t0) * 1e-6; bool timed = x.sec >= 0;
      bool rival = x.w ? nw || nr || mon.w_seen != w0 || mon.r_seen != r0 : nw || mon.w_seen != w0;
      (ok ? wins : fails)++;
      const char *what = x.w ? "write lock" : "read lock";
      CHECK(ok || timed, "an unlimited " << what << " fails");
      CHECK(ok || rival, "a " << what << " that nobody stands in the way of fails (limit " << x.sec << " s)");
      if (!ok) CHECK(el >= x.sec - 3e-6, "a " << what << " with a limit of " << x.sec << " s gives up after " << el);
      if (timed && !sched::jumps()) CHECK(el <= x.sec + 0.1, "a " << what << " with a limit of " << x.sec << " s returns after " << el);
    };
    auto body = [&] { mon.in(x.w); struct Out { Monitor &m; bool w; ~Out() { m.out(w); } } o{mon, x.w}; work(x.hold, mon, x.w, &cell); { sched::Quiet q; if (x.w) writes++; } if (x.boom && x.how) throw Boom(); };
    try {
      switch (x.how) {
        case 0: { bool ok = x.w ? (x.sec < 0 ? m.write_lock() : m.write_lock(x.sec)) : (x.sec < 0 ? m.read_lock() : m.read_lock(x.sec)); result(ok); if (ok) { body(); CHECK(m.unlock(), "unlock() fails"); } break; }
        case 1: if (x.w) { scoped_wlock lk(m, x.sec); result(lk.locked()); CHECK(lk.locked() == (lk ? true : false), "a scoped lock contradicts itself"); if (lk) body(); }
                else { scoped_rlock lk(m, x.sec); result(lk.locked()); CHECK(lk.locked() == (lk ? true : false), "a scoped lock contradicts itself"); if (lk) body(); } break;
        case 2: { scoped_lock lk(x.w ? (x.sec < 0 ? wlock(m) : wlock(m, x.sec)) : (x.sec < 0 ? rlock(m) : rlock(m, x.sec))); result(lk.locked()); if (lk) body(); break; }
        case 3: { rlocker r1(m), r2(m, x.sec); wlocker w1(m), w2(m, x.sec); lockable &l = x.w ? (x.sec < 0 ? (lockable &)w1 : (lockable &)w2) : (x.sec < 0 ? (lockable &)r1 : (lockable &)r2); scoped_lock lk(l); result(lk.locked()); if (lk.locked()) body(); break; }
        default: if (x.w) { scoped_wlock lk(m, x.sec); scoped_wlock l2(lk); result(l2.locked()); CHECK(!lk.locked(), "two guards own one lock"); if (l2) body(); }
                 else { scoped_rlock lk(m, x.sec); scoped_rlock l2(lk); result(l2.locked()); CHECK(!lk.locked(), "two guards own one lock"); if (l2) body(); } break;
      }
    } catch (Boom &) {}
    mon.gone(x.w);
  } });
  sched::join_all();
  CHECK(cell == writes, "of " << writes << " exclusive increments, " << cell << " are left");
  // everything was released: nobody is in the way now
  CHECK(m.write_lock(0), "the lock is not free after everybody has left"); CHECK(!m.read_lock(0) && !m.write_lock(0) , "a lock held exclusively is given a second time"); CHECK(m.unlock(), "unlock() fails");
  CHECK(m.read_lock(0) && m.read_lock(0), "the lock is not free for readers after everybody has left"); CHECK(!m.write_lock(0), "a lock held by readers is given to a writer"); CHECK(m.unlock(), "unlock() fails"); CHECK(!m.write_lock(0), "a lock held by one reader is given to a writer"); CHECK(m.unlock(), "unlock() fails"); CHECK(m.write_lock(0), "the lock is not free after both readers have left"); CHECK(m.unlock(), "unlock() fails");
  NOTE(nt << " threads, " << wins << " locks obtained, " << fails << " refused, " << mon.shared_max << " readers at once, " << sched::switches() << " switches");
  c.nt(sched::switches() > (uint64_t)nt * 2); if (fails) c.label("some timed lock was refused"); if (mon.shared_max > 1) c.label("readers shared the lock");
}
// Readers that only leave when all of them are in.
void share(Src &s, Ctx &c) {
  int nt = (int)s.range(2, 4); std::vector<int> how; for (int i = 0; i < nt; i++) how.push_back((int)s.choose(4));
  sched::Session ses(s, c);
  rw_mutex m; int in = 0;
  for (int t = 0; t < nt; t++) sched::spawn([&, t] {
    auto meet = [&] { { sched::Quiet q; in++; } for (int i = 0; i < 300; i++) { { sched::Quiet q; if (in == nt) return; } thread::sleep(0.01); } sched::Quiet q; CHECK(in == nt, "readers keep each other out: " << in << " of " << nt << " are in"); };
    switch (how[t]) {
      case 0: CHECK(m.read_lock(), "read_lock() fails"); meet(); CHECK(m.unlock(), "unlock() fails"); break;
      case 1: { scoped_rlock lk(m); meet(); break; }
      case 2: { scoped_lock lk(rlock(m)); meet(); break; }
      default: { CHECK(m.read_lock(5.0), "read_lock(5) fails among readers"); meet(); m.unlock(); }
    }
  });
  sched::join_all();
  NOTE(nt << " readers met inside"); c.nt();
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C33";
  r.rule = "2-4 threads run generated sections under one mutex, recursive mutex (nested up to 4 deep, with foreign unlocks) or reader/writer lock (with and without time limits, through every kind of guard, left also by exceptions)" SCHED_RULE "; a monitor checks who is inside at each entry, in the middle and at each exit, increments of a shared cell must all survive, refusals need a rival and the whole time limit, and afterwards the lock is free. Non-trivial: more thread switches than starts and ends.";
  r.props = {{"plain", plain, 6000, 120000, false}, {"recursive", recursive, 8000, 200000, false}, {"rw", rw, 10000, 250000, false}, {"share", share, 2000, 30000, false}};
  r.assumptions = {SCHED_ASSUME, "A plain mutex is not locked twice or unlocked by the wrong thread, read locks are not nested (both are errors of the caller)."};
  return r;
}
}
