// C32: a quantity semaphore never hands out more than it has, under every interleaving; waits block exactly while
// the quantity is too small.
#include "lincheck.h"
#include <concurrent/qsem.h>
#include <concurrent/lock.h>
#include <concurrent/thread.h>
using namespace pbt;
namespace {
enum K { WAIT1, WAITQ, SIGNAL1, SIGNALQ, LOCK, UNLOCK };
struct Act { K k; int q; bool ok; };
typedef long St;
int amount(const Act &a) { return a.k == WAITQ || a.k == SIGNALQ ? a.q : 1; }
bool takes(const Act &a) { return a.k == WAIT1 || a.k == WAITQ || a.k == LOCK; }
void history(Src &s, Ctx &c) {
  std::vector<std::vector<Act>> prog; int nt = (int)s.range(1, 4), total = 0;
  int q0 = (int)s.pick({0, 1, 2, 3, 5, 1000000});
  for (int t = 0; t < nt; t++) {
    prog.emplace_back(); int n = (int)s.range(1, 5);
    for (int i = 0; i < n && total < 14; i++, total++) {
      Act a{}; a.k = s.pick({WAIT1, WAITQ, WAITQ, SIGNAL1, SIGNALQ, LOCK, UNLOCK});
      a.q = s.coin(1, 8) ? (int)s.choose(100000) : (int)s.choose(4);
      prog.back().push_back(a);
    }
  }
  sched::Session ses(s, c);
  pfi::concurrent::qsem m(q0); Linear<Act, St> l;
  l.text = [](const Act &a) { return std::string(takes(a) ? a.k == LOCK ? "lock" : "wait" : a.k == UNLOCK ? "unlock" : "signal") + "(" + std::to_string(amount(a)) + ")"; };
  l.exec = [&](Act &a) {
    switch (a.k) {
      case WAIT1: a.ok = m.wait(); break; case WAITQ: a.ok = m.wait(a.q); break; case SIGNAL1: a.ok = m.signal(); break;
      case SIGNALQ: a.ok = m.signal(a.q); break; case LOCK: a.ok = m.lock(); break; default: a.ok = m.unlock();
    }
    sched::Quiet q; CHECK(a.ok, l.text(a) << " reports failure");
    return std::string("true");
  };
  l.blocking = [](const Act &a) { return takes(a); };
  l.enabled = [&](const St &st, const Act &a) { return st >= amount(a); };
  l.release = [&](const std::vector<Act> &p) { Act f{}; f.k = SIGNALQ; int n = INT32_MAX; for (auto &a : p) n = std::min(n, amount(a)); f.q = std::max(1, n); return f; };
  l.step = [&](St &st, const Act &a) { if (!takes(a)) { st += amount(a); return true; } if (st < amount(a)) return false; st -= amount(a); return true; };
  l.key = [](const St &st) { return std::to_string(st); };
  l.check(prog, q0, c, "a semaphore of quantity " + std::to_string(q0));
}
// As a lock: at most q0 threads are inside scopes guarded by it.
void guard(Src &s, Ctx &c) {
  int nt = (int)s.range(2, 4), q0 = (int)s.range(1, 3), inside = 0, most = 0; std::vector<int> n; std::vector<bool> thr;
  for (int t = 0; t < nt; t++) { n.push_back((int)s.range(1, 3)); thr.push_back(s.coin(1, 4)); }
  sched::Session ses(s, c);
  pfi::concurrent::qsem m(q0);
  for (int t = 0; t < nt; t++) sched::spawn([&, t] {
    for (int i = 0; i < n[t]; i++) {
      try {
        pfi::concurrent::scoped_lock lk(m);
        CHECK(lk.locked(), "the scoped lock is not locked");
        { sched::Quiet q; inside++; most = std::max(most, inside); CHECK(inside <= q0, inside << " threads are inside a semaphore of " << q0); }
        sched::point(); pfi::concurrent::thread::yield();
        { sched::Quiet q; inside--; }
        if (thr[t]) throw 1;
      } catch (int) {}
    }
  });
  sched::join_all();
  NOTE(nt << " threads, quantity " << q0 << ", at most " << most << " inside"); c.nt(most > 1 || q0 == 1);
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C32";
  r.rule = "1-4 threads run up to 14 generated wait and signal operations of generated amounts on one semaphore of generated quantity" SCHED_RULE "; the history, including which waits are blocked whenever all threads are at rest, must have a sequential explanation by a counter that never goes below zero. A second generator uses the semaphore as the lock of scopes. Non-trivial: several threads with more thread switches than starts and ends.";
  r.props = {{"history", history, 20000, 500000, false}, {"guard", guard, 4000, 80000, false}};
  r.assumptions = {SCHED_ASSUME, "Amounts are not negative and sums stay within an int."};
  return r;
}
}
