// C29: a bounded producer/consumer buffer behaves, under every interleaving, like a FIFO queue whose
// operations happen one at a time; operations block exactly while they cannot proceed.
#include "lincheck.h"
#include <deque>
#include <concurrent/pcbuf.h>
using namespace pbt;
namespace {
enum K { PUSH, POP, TPUSH, TPOP, SIZE, EMPTY, CLEAR };
struct V { int a; std::string s; V() : a(-1) {} explicit V(int x) : a(x), s("value number " + std::to_string(x) + " of the buffer") {} };
struct Act { K k; int v; double sec; bool ok; long n; };
typedef std::deque<int> St;
void history(Src &s, Ctx &c) {
  std::vector<std::vector<Act>> prog; int nt = (int)s.range(1, 4), total = 0, val = 0;
  size_t cap = 1 + s.choose(3); bool only_timed = false;
  if (s.coin(1, 12)) { cap = 0; only_timed = true; }
  int mix = (int)s.choose(5);
  for (int t = 0; t < nt; t++) {
    prog.emplace_back(); int n = (int)s.range(1, 5);
    for (int i = 0; i < n && total < 14; i++, total++) {
      Act a{}; int k = (int)s.choose(12);
      a.k = k < 4 ? PUSH : k < 7 ? POP : k == 7 ? TPUSH : k == 8 ? TPOP : k == 9 ? SIZE : k == 10 ? EMPTY : CLEAR;
      if (mix == 1 && a.k > TPOP) a.k = t % 2 ? POP : PUSH;
      if (mix == 2 && a.k < SIZE) a.k = a.k == PUSH || a.k == TPUSH ? TPUSH : TPOP;
      if (mix == 3) a.k = t % 2 ? POP : PUSH;
      if (mix == 4) a.k = t == 0 ? (k < 6 ? CLEAR : SIZE) : (k < 10 ? PUSH : TPUSH);
      if (only_timed && a.k == PUSH) a.k = TPUSH; if (only_timed && a.k == POP) a.k = TPOP;
      if (a.k == PUSH || a.k == TPUSH) a.v = ++val;
      if (a.k == TPUSH || a.k == TPOP) a.sec = s.pick({1.0, 0.0, -1.0, 0.000001, 0.001, 0.25, 3.0, 0.999999, 1000.0});
      prog.back().push_back(a);
    }
  }
  sched::Session ses(s, c);
  pfi::concurrent::pcbuf<V> b(cap); Linear<Act, St> l;
  l.text = [](const Act &a) { static const char *n[] = {"push", "pop", "push", "pop", "size", "empty", "clear"}; std::ostringstream o; o << n[a.k] << "("; if (a.k == PUSH || a.k == TPUSH) o << a.v; if (a.k == TPUSH || a.k == TPOP) o << " within " << a.sec << "s"; o << ")"; return o.str(); };
  l.exec = [&](Act &a) {
    V v; std::string r;
    switch (a.k) {
      case PUSH: b.push(V(a.v)); break;
      case TPUSH: a.ok = b.push(V(a.v), a.sec); r = a.ok ? "true" : "false"; break;
      case POP: b.pop(v); a.v = v.a; r = std::to_string(v.a); a.ok = true; break;
      case TPOP: a.ok = b.pop(v, a.sec); a.v = v.a; r = a.ok ? std::to_string(v.a) : "false"; break;
      case SIZE: a.n = (long)b.size(); r = std::to_string(a.n); break;
      case EMPTY: a.n = b.empty(); r = std::to_string(a.n); break;
      case CLEAR: b.clear(); break;
    }
    sched::Quiet q;
    if ((a.k == POP || a.k == TPOP) && a.ok) CHECK(v.s == V(v.a).s, "a popped value is torn: " << v.a << " " << show(v.s));
    CHECK(b.capacity() == cap, "the capacity changed");
    return r;
  };
  l.timing = [&](const Act &a, double el) {
    if (a.k != TPUSH && a.k != TPOP) return;
    if (!a.ok) CHECK(el >= a.sec - 3e-6, l.text(a) << " gave up after " << el << " s");
    if (!sched::jumps()) CHECK(el <= std::max(0.0, a.sec) + 0.2, l.text(a) << " took " << el << " s");
  };
  l.blocking = [](const Act &a) { return a.k == PUSH || a.k == POP; };
  l.enabled = [&](const St &st, const Act &a) { return a.k == PUSH ? st.size() < cap : !st.empty(); };
  l.release = [&](const std::vector<Act> &p) { Act f{}; f.k = POP; for (auto &a : p) if (a.k == POP) { f.k = PUSH; f.v = ++val; break; } return f; };
  l.step = [&](St &st, const Act &a) {
    switch (a.k) {
      case TPUSH: if (!a.ok) return st.size() >= cap; /* fall through */
      case PUSH: if (st.size() >= cap) return false; st.push_back(a.v); return true;
      case TPOP: if (!a.ok) return st.empty(); /* fall through */
      case POP: if (st.empty() || st.front() != a.v) return false; st.pop_front(); return true;
      case SIZE: return (long)st.size() == a.n;
      case EMPTY: return (long)st.empty() == a.n;
      default: st.clear(); return true;
    }
  };
  l.key = [](const St &st) { std::string k; for (int v : st) { k += std::to_string(v); k += ','; } return k; };
  l.check(prog, St(), c, "a buffer of capacity " + std::to_string(cap));
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C29";
  r.rule = "1-4 threads run up to 14 generated operations (push and pop with and without a time limit, size, empty, clear) on one buffer of capacity 0-3" SCHED_RULE "; the history, including which operations are blocked whenever all threads are at rest, must have a sequential explanation by a bounded FIFO queue, and timed operations must keep their limits. Non-trivial: several threads with more thread switches than starts and ends.";
  r.props = {{"history", history, 24000, 600000, false}};
  r.assumptions = {SCHED_ASSUME, "At most 4 threads and 14 operations per history, plus those that release blocked threads."};
  return r;
}
}
