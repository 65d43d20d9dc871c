// C30: a synchronising variable (mvar) behaves, under every interleaving, like a cell that holds at most one
// value and whose operations happen one at a time; operations block exactly while they cannot proceed.
#include "lincheck.h"
#include <concurrent/mvar.h>
using namespace pbt;
namespace {
enum K { PUT, TAKE, READ, TRY_PUT, TRY_TAKE, SWAP, EMPTY };
struct V { int a; std::string s; V() : a(-1) {} explicit V(int x) : a(x), s("value number " + std::to_string(x) + " of the cell") {} };
struct Act { K k; int v, r; bool ok; };
typedef int St;      // 0: empty
void history(Src &s, Ctx &c) {
  std::vector<std::vector<Act>> prog; int nt = (int)s.range(1, 4), total = 0, val = 0;
  bool full = s.coin(); int v0 = full ? ++val : 0;
  int mix = (int)s.choose(4);
  for (int t = 0; t < nt; t++) {
    prog.emplace_back(); int n = (int)s.range(1, 5);
    for (int i = 0; i < n && total < 14; i++, total++) {
      Act a{}; int k = (int)s.choose(14);
      a.k = k < 4 ? PUT : k < 7 ? TAKE : k < 9 ? READ : k == 9 ? TRY_PUT : k == 10 ? TRY_TAKE : k < 13 ? SWAP : EMPTY;
      if (mix == 1) a.k = t % 2 ? TAKE : PUT;
      if (mix == 2) a.k = t == 0 ? (k < 7 ? PUT : TRY_PUT) : k < 9 ? SWAP : READ;
      if (mix == 3 && a.k == READ) a.k = SWAP;
      if (a.k == PUT || a.k == TRY_PUT || a.k == SWAP) a.v = ++val;
      prog.back().push_back(a);
    }
  }
  sched::Session ses(s, c);
  std::unique_ptr<pfi::concurrent::mvar<V>> m(full ? new pfi::concurrent::mvar<V>(V(v0)) : new pfi::concurrent::mvar<V>());
  Linear<Act, St> l;
  l.text = [](const Act &a) { static const char *n[] = {"put", "take", "read", "try_put", "try_take", "swap", "empty"}; return std::string(n[a.k]) + "(" + (a.v ? std::to_string(a.v) : "") + ")"; };
  l.exec = [&](Act &a) {
    V v; std::string r; a.ok = true; a.r = 0;
    switch (a.k) {
      case PUT: m->put(V(a.v)); break;
      case TAKE: v = m->take(); break;
      case READ: v = m->read(); break;
      case TRY_PUT: a.ok = m->try_put(V(a.v)); r = a.ok ? "true" : "false"; break;
      case TRY_TAKE: a.ok = m->try_take(v); r = a.ok ? "true" : "false"; break;
      case SWAP: v = m->swap(V(a.v)); break;
      case EMPTY: a.ok = m->empty(); r = a.ok ? "true" : "false"; break;
    }
    sched::Quiet q;
    if (a.k == TAKE || a.k == READ || a.k == SWAP || (a.k == TRY_TAKE && a.ok)) { a.r = v.a; CHECK(v.s == V(v.a).s, l.text(a) << " gave a torn value: " << v.a << " " << show(v.s)); r += (r.empty() ? "" : " ") + std::to_string(v.a); }
    return r;
  };
  l.blocking = [](const Act &a) { return a.k <= READ || a.k == SWAP; };
  l.enabled = [&](const St &st, const Act &a) { return a.k == PUT ? st == 0 : st != 0; };
  l.release = [&](const std::vector<Act> &p) { Act f{}; f.k = TAKE; for (auto &a : p) if (a.k != PUT) { f.k = PUT; f.v = ++val; break; } return f; };
  l.step = [&](St &st, const Act &a) {
    switch (a.k) {
      case PUT: if (st) return false; st = a.v; return true;
      case TAKE: if (!st || st != a.r) return false; st = 0; return true;
      case READ: return st && st == a.r;
      case TRY_PUT: if (!a.ok) return st != 0; if (st) return false; st = a.v; return true;
      case TRY_TAKE: if (!a.ok) return st == 0; if (!st || st != a.r) return false; st = 0; return true;
      case SWAP: if (!st || st != a.r) return false; st = a.v; return true;
      default: return a.ok == (st == 0);
    }
  };
  l.key = [](const St &st) { return std::to_string(st); };
  l.check(prog, v0, c, full ? "a cell that held 1" : "an empty cell");
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C30";
  r.rule = "1-4 threads run up to 14 generated operations (put, take, read, swap, try_put, try_take, empty) on one mvar, empty or full at first," SCHED_RULE "; the history, including which operations are blocked whenever all threads are at rest, must have a sequential explanation by a cell that holds at most one value. Non-trivial: several threads with more thread switches than starts and ends.";
  r.props = {{"history", history, 24000, 600000, false}};
  r.assumptions = {SCHED_ASSUME, "At most 4 threads and 14 operations per history, plus those that release blocked threads."};
  return r;
}
}
