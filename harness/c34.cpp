// C34: waiting on a condition releases the lock, ends when notified or timed out, and restores the lock.
#include "lincheck.h"
#include <concurrent/condition.h>
#include <concurrent/mutex.h>
#include <concurrent/thread.h>
using namespace pbt;
using namespace pfi::concurrent;
namespace {
struct Owner {     // who holds the lock, by the harness's own account
  int who = -1;
  void take() { sched::Quiet q; CHECK(who < 0, "thread " << sched::self() << " holds the lock while thread " << who << " does"); who = sched::self(); }
  void give() { sched::Quiet q; CHECK(who == sched::self(), "thread " << sched::self() << " does not hold the lock it should"); who = -1; }
  void have() { sched::Quiet q; CHECK(who == sched::self(), "another thread got a lock that is held"); }
};
template <class M> void lock(M &m, Owner &o, int depth) { for (int i = 0; i < depth; i++) CHECK(m.lock(), "lock() fails"); o.take(); }
template <class M> void unlock(M &m, Owner &o, int depth, bool rec) {
  for (int i = 1; i < depth; i++) { CHECK(m.unlock(), "unlock() fails: the depth was not restored"); sched::point(); o.have(); }
  o.give(); CHECK(m.unlock(), "the last unlock() fails");
  if (rec) CHECK(!m.unlock(), "the lock is held deeper after waiting than before");
}
struct Waiter { int depth; double sec; int n; };
struct Notifier { int k; bool all, inside; int depth; double before; };
// Tokens: every waiter takes one, every notifier adds some and notifies as often.
template <class M> void tokens_(Src &s, Ctx &c, bool rec) {
  int nw = (int)s.range(1, 3), nn = (int)s.range(1, 2); std::vector<Waiter> w; std::vector<Notifier> nf;
  for (int i = 0; i < nw; i++) w.push_back({rec ? (int)s.range(1, 3) : 1, s.coin(1, 3) ? s.pick({0.3, 1.0, 5.0, 0.0, 0.000001, -1e9}) : -1, (int)s.range(1, 2)});
  for (int i = 0; i < nn; i++) nf.push_back({(int)s.range(1, 3), s.coin(), s.coin(), rec ? (int)s.range(1, 2) : 1, s.pick({0.0, 0.1, 0.3, 0.6})});
  sched::Session ses(s, c);
  M m; condition cond; Owner o; int tokens = 0, got = 0, gave_up = 0, waiting = 0;
  for (auto &x : w) sched::spawn([&] { for (int i = 0; i < x.n; i++) {
    lock(m, o, x.depth); int64_t t0 = sched::now(); bool timed = x.sec > -1 || x.sec < -2, out = false;
    while (tokens == 0 && !out) {
      int64_t t1 = sched::now();
      waiting++; o.give();
      if (!timed) cond.wait(m);
      else if (!cond.wait(m, x.sec)) { out = true; sched::Quiet q; double el = (sched::now() - t1) * 1e-6; CHECK(el >= x.sec - 3e-6, "a wait limited to " << x.sec << " s times out after " << el); }
      o.take(); waiting--;
      if (timed) { sched::Quiet q; double el = (sched::now() - t1) * 1e-6; if (!sched::jumps()) CHECK(el <= std::max(0.0, x.sec) + 0.1, "a wait limited to " << x.sec << " s takes " << el); }
    }
    if (tokens > 0) { tokens--; got++; } else gave_up++;
    (void)t0; unlock(m, o, x.depth, rec);
  } });
  int added = 0;
  for (auto &x : nf) sched::spawn([&] {
    if (x.before > 0) thread::sleep(x.before);
    lock(m, o, x.depth); tokens += x.k; added += x.k;
    auto ring = [&] { if (x.all) cond.notify_all(); else for (int i = 0; i < x.k; i++) cond.notify(); };
    if (x.inside) ring();
    unlock(m, o, x.depth, rec);
    if (!x.inside) ring();
  });
  std::vector<int> bl;
  { sched::Rest rs; bl = rs.blocked;
    CHECK(o.who < 0, "the lock is held by a waiting thread");
    CHECK(bl.empty() || tokens == 0, bl.size() << " threads wait although " << tokens << " tokens are there and every one was notified");
    CHECK(got + tokens == added, "tokens were lost: " << added << " added, " << got << " taken, " << tokens << " left");
    if (!bl.empty()) c.label("some thread waits at the end"); }
  if (!bl.empty()) {
    CHECK(m.lock(), "lock() fails"); o.take(); tokens += 100; added += 100; cond.notify_all(); o.give(); CHECK(m.unlock(), "unlock() fails");
  }
  sched::join_all();
  NOTE(nw << " waiters, " << nn << " notifiers: " << got << " tokens taken, " << gave_up << " waits given up"); c.nt(got + gave_up > 0 && sched::switches() > 4); if (gave_up) c.label("some wait timed out");
}
void tokens(Src &s, Ctx &c) { if (s.coin()) tokens_<r_mutex>(s, c, true); else tokens_<mutex>(s, c, false); }
// Bare waits: nothing wakes but notifications and limits.
template <class M> void bare_(Src &s, Ctx &c, bool rec) {
  int nw = (int)s.range(1, 4); std::vector<Waiter> w; for (int i = 0; i < nw; i++) w.push_back({rec ? (int)s.range(1, 3) : 1, s.coin(1, 4) ? s.pick({1.0, 50.0}) : -1, 1});
  std::vector<int> calls; int nc = (int)s.range(0, 3); for (int i = 0; i < nc; i++) calls.push_back((int)s.choose(3));
  sched::Opt opt; opt.spurious = false; opt.jumps = false;
  sched::Session ses(s, c, opt);
  M m; condition cond; Owner o; int in = 0, timed_in = 0, done = 0, timeouts = 0; int notified = 0;
  for (auto &x : w) sched::spawn([&] {
    lock(m, o, x.depth); in++; bool timed = x.sec > 0; if (timed) timed_in++; o.give();
    int64_t t0 = sched::now(); bool r = true; if (timed) r = cond.wait(m, x.sec); else cond.wait(m);
    o.take(); done++; if (timed) timed_in--; if (!r) timeouts++;
    { sched::Quiet q; double el = (sched::now() - t0) * 1e-6; if (!r) CHECK(el >= x.sec - 3e-6, "a wait limited to " << x.sec << " s times out after " << el); if (timed) CHECK(el <= x.sec + 0.1, "a wait limited to " << x.sec << " s takes " << el);
      if (r) CHECK(notified > 0, "a wait ends before anything was notified"); }
    unlock(m, o, x.depth, rec);
  });
  // let them all wait (time may not pass meanwhile: the shortest limit is a second, this takes less)
  for (int i = 0; i < 100; i++) { thread::sleep(0.002); lock(m, o, 1); bool all = in == nw; unlock(m, o, 1, rec); if (all) break; }
  lock(m, o, 1); CHECK(in == nw, "a thread does not get to wait although the lock is free"); bool fresh = done == 0; unlock(m, o, 1, rec);
  if (!fresh) sched::fail("a wait ends although nothing was notified and no limit has passed");
  int must = 0;
  for (int k : calls) {
    lock(m, o, 1); int waiting = nw - done; bool inside = k != 2;
    notified++;
    if (k == 1) { must = nw; if (inside) cond.notify_all(); } else { must = std::min(nw, must + 1); if (inside) cond.notify(); }
    unlock(m, o, 1, rec); if (!inside) cond.notify(); (void)waiting;
    // no time passes that matters: the woken ones come back
    for (int i = 0; i < 50; i++) { thread::sleep(0.001); lock(m, o, 1); bool en = done >= must; unlock(m, o, 1, rec); if (en) break; }
    lock(m, o, 1); CHECK(done >= must, "after " << notified << " notifications only " << done << " of " << nw << " waiters came back, " << must << " should"); CHECK(timeouts == 0, "a notified wait reports a timeout"); unlock(m, o, 1, rec);
  }
  { sched::Rest rs; std::vector<int> &bl = rs.blocked; CHECK(timed_in == 0, "a wait with a limit never ends"); CHECK((int)bl.size() == nw - done, "a thread is blocked outside a wait"); CHECK(o.who < 0, "the lock is held by a waiting thread"); }
  lock(m, o, 1); notified++; cond.notify_all(); unlock(m, o, 1, rec);
  sched::join_all(); CHECK(done == nw, "notifying all does not wake all");
  NOTE(nw << " waiters, " << calls.size() << " notifications before the last, " << timeouts << " timeouts"); c.nt();
}
void bare(Src &s, Ctx &c) { if (s.coin()) bare_<r_mutex>(s, c, true); else bare_<mutex>(s, c, false); }
// Waiting without holding the lock does nothing, whoever else holds it.
template <class M> void foreign_(Src &s, Ctx &c, bool rec) {
  bool held = s.coin(), timed = s.coin(); double sec = s.pick({1.0, 0.0, 1000.0}); int depth = rec ? (int)s.range(1, 3) : 1, n = (int)s.range(1, 3); bool before = s.coin();
  sched::Opt opt; opt.jumps = false; sched::Session ses(s, c, opt);
  M m; condition cond; Owner o; volatile bool go = false, stop = false;
  if (held) { sched::spawn([&] { lock(m, o, depth); go = true; while (!stop) { thread::sleep(0.01); o.have(); } unlock(m, o, depth, rec); }); while (!go) thread::sleep(0.001); }
  else if (before) { lock(m, o, depth); unlock(m, o, depth, rec); }
  std::vector<int> ids;
  for (int i = 0; i < n; i++) sched::spawn([&] {
    int64_t t0 = sched::now();
    if (timed) CHECK(!cond.wait(m, sec), "a wait without the lock reports a notification"); else cond.wait(m);
    sched::Quiet q; CHECK((sched::now() - t0) * 1e-6 < 0.5, "a wait without the lock takes " << (sched::now() - t0) * 1e-6 << " s");
  });
  thread::sleep(0.2); stop = true;
  sched::join_all();
  lock(m, o, 1); unlock(m, o, 1, rec);
  NOTE((held ? "lock held by another" : "lock free") << (timed ? ", timed" : "") << ", " << n << " threads"); c.nt(held || n > 1);
}
void foreign(Src &s, Ctx &c) { if (s.coin()) foreign_<r_mutex>(s, c, true); else foreign_<mutex>(s, c, false); }
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C34";
  r.rule = "1-4 waiting threads (lock depth 1-3, with and without time limits) and 1-2 notifying threads (one or all, inside or outside the lock) of generated programs run" SCHED_RULE "; the harness keeps its own account of who holds the lock, checks waiting threads against the tokens and notifications whenever all threads are at rest, and times every limited wait. Waits without the lock must return at once. Non-trivial: some wait took place and threads switched.";
  r.props = {{"tokens", tokens, 14000, 300000, false}, {"bare", bare, 6000, 100000, false}, {"foreign", foreign, 2000, 30000, false}};
  r.assumptions = {SCHED_ASSUME};
  return r;
}
}
