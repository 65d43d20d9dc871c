// C31: every message written to any branch of a channel arrives exactly once, in one common order, on every branch
// that existed when it was written.
#include "lincheck.h"
#include <deque>
#include <concurrent/chan.h>
using namespace pbt;
namespace {
enum K { WRITE, READ, UNGET, SIZE, EMPTY, DUP, DESTROY };
struct V { int a; std::string s; V() : a(-1) {} explicit V(int x) : a(x), s("message number " + std::to_string(x) + " of the channel") {} };
typedef pfi::concurrent::chan<V> Ch;
struct Act { K k; int b, v, from; long n; int id; std::vector<int> to; int parts; };
struct St { std::vector<std::deque<int>> q; std::vector<char> ex; int cur = -1, left = 0; };
void history(Src &s, Ctx &c) {
  std::vector<std::vector<Act>> prog; int nt = (int)s.range(1, 4), total = 0, val = 0, writes = 0;
  int shared = 1 + (int)s.choose(3), B = shared;          // branches: shared ones, and one that each thread may make for itself
  int mix = (int)s.choose(4);
  for (int t = 0; t < nt; t++) {
    prog.emplace_back(); int n = (int)s.range(1, 5), own = -1, st = 0;   // 0: not made, 1: made, 2: destroyed
    for (int i = 0; i < n && total < 12; i++, total++) {
      Act a{}; a.b = st == 1 && s.coin() ? own : (int)s.choose(shared);
      int k = (int)s.choose(12);
      a.k = k < 4 ? WRITE : k < 7 ? READ : k == 7 ? UNGET : k == 8 ? SIZE : k == 9 ? EMPTY : st == 0 ? DUP : st == 1 && k == 11 ? DESTROY : WRITE;
      if (mix == 1) a.k = t % 2 ? READ : WRITE;
      if (mix == 2 && a.k > UNGET) a.k = READ;
      if (mix == 3 && a.k == READ && a.b < shared) a.k = st == 0 ? DUP : WRITE;
      if (a.k == WRITE && ++writes > 6) a.k = READ;
      if (a.k == DUP) { a.from = a.b; a.b = own = B++; st = 1; }
      if (a.k == DESTROY) { a.b = own; st = 2; }
      if (a.k == WRITE || a.k == UNGET) a.v = ++val;
      prog.back().push_back(a);
    }
  }
  sched::Session ses(s, c);
  std::vector<pfi::lang::shared_ptr<Ch>> br(B);
  br[0] = pfi::lang::shared_ptr<Ch>(new Ch()); for (int i = 1; i < shared; i++) br[i] = br[s.choose(i)]->dup();
  Linear<Act, St> l;
  l.text = [](const Act &a) { static const char *n[] = {"write", "read", "unget", "size", "empty", "dup", "destroy"}; std::ostringstream o; o << "branch" << (a.k == DUP ? a.from : a.b) << "." << n[a.k] << "("; if (a.k == WRITE || a.k == UNGET) o << a.v; o << ")"; if (a.k == DUP) o << " = branch" << a.b; return o.str(); };
  l.exec = [&](Act &a) {
    V v; std::string r;
    switch (a.k) {
      case WRITE: br[a.b]->write(V(a.v)); break;
      case READ: v = br[a.b]->read(); break;
      case UNGET: br[a.b]->unget(V(a.v)); break;
      case SIZE: a.n = br[a.b]->size(); r = std::to_string(a.n); break;
      case EMPTY: a.n = br[a.b]->empty(); r = std::to_string(a.n); break;
      case DUP: br[a.b] = br[a.from]->dup(); break;
      case DESTROY: br[a.b].reset(); break;
    }
    sched::Quiet q; static int ids; a.id = ids++;
    if (a.k == READ) { CHECK(v.s == V(v.a).s, "a message is torn: " << v.a << " " << show(v.s)); a.v = v.a; r = std::to_string(v.a); }
    return r;
  };
  l.blocking = [](const Act &a) { return a.k == READ; };
  l.enabled = [&](const St &st, const Act &a) { return !st.q[a.b].empty(); };
  l.release = [&](const std::vector<Act> &) { Act f{}; f.k = WRITE; f.b = 0; f.v = ++val; return f; };
  l.expand = [&](size_t i) {      // a write may reach branches at different moments, if anything else happens on them meanwhile
    const Act &a = l.acts[i]; std::vector<Act> r; if (a.k != WRITE) { r.push_back(a); return r; }
    Act rest = a; rest.to.clear();
    for (int b = 0; b < B; b++) {
      bool busy = false;
      for (size_t j = 0; j < l.acts.size(); j++) if (!l.is_rest[j] && l.acts[j].k != WRITE && l.acts[j].b == b && l.h.ops[j].inv < l.h.ops[i].ret && l.h.ops[j].ret > l.h.ops[i].inv) busy = true;
      if (busy) { Act x = a; x.to = {b}; r.push_back(x); } else rest.to.push_back(b);
    }
    if (!rest.to.empty()) r.push_back(rest);
    for (auto &x : r) x.parts = (int)r.size();
    return r;
  };
  l.step = [&](St &st, const Act &a) {
    switch (a.k) {
      case WRITE:      // one branch of it; writes reach the branches one write after the other
        if (st.cur >= 0 && st.cur != a.id) return false;
        if (st.cur < 0) { st.cur = a.id; st.left = a.parts; }
        if (--st.left == 0) st.cur = -1;
        for (int b : a.to) if (st.ex[b]) st.q[b].push_back(a.v);
        return true;
      case READ: if (st.q[a.b].empty() || st.q[a.b].front() != a.v) return false; st.q[a.b].pop_front(); return true;
      case UNGET: st.q[a.b].push_front(a.v); return true;
      case SIZE: return (long)st.q[a.b].size() == a.n;
      case EMPTY: return (long)st.q[a.b].empty() == a.n;
      case DUP: st.ex[a.b] = 1; return true;
      default: st.ex[a.b] = 0; st.q[a.b].clear(); return true;
    }
  };
  l.key = [](const St &st) { std::string k; for (auto &q : st.q) { for (int v : q) { k += std::to_string(v); k += ','; } k += ';'; } k.append(st.ex.begin(), st.ex.end()); k += std::to_string(st.cur); return k; };
  St init; init.q.resize(B); init.ex.assign(B, 0); for (int i = 0; i < shared; i++) init.ex[i] = 1;
  // afterwards every branch that is left is drained: what it still holds is part of the history
  l.finish = [&] {
    for (int b = 0; b < B; b++) if (br[b]) { int n = br[b]->size(); for (int i = 0; i < n; i++) { Act a{}; a.k = READ; a.b = b; l.run(a); } Act e{}; e.k = EMPTY; e.b = b; l.run(e); }
  };
  l.check(prog, init, c, std::to_string(shared) + " branches");
  // branches do not need the one they were made from
  if (shared > 1) { br[0].reset(); br[1]->write(V(++val)); for (int b = 1; b < B; b++) if (br[b]) CHECK(br[b]->size() == 1 && br[b]->read().a == val, "branch" << b << " does not get a message after branch0 is gone"); }
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C31";
  r.rule = "1-4 threads run up to 12 generated operations (write, read, put back, size, empty, making and destroying branches) on a channel of 1-3 shared branches and one own branch per thread" SCHED_RULE "; the history, including the drained rest of every branch and which reads are blocked whenever all threads are at rest, must have a sequential explanation by one FIFO queue per branch, writes reaching the branches one write after the other. Non-trivial: several threads with more thread switches than starts and ends.";
  r.props = {{"history", history, 20000, 400000, false}};
  r.assumptions = {SCHED_ASSUME, "A write may become visible on different branches at different moments, and a branch that is made or destroyed during a write may or may not get it.", "A branch is destroyed only by the thread that uses it."};
  return r;
}
}
