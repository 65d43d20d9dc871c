// A deterministic thread scheduler for property-based concurrency tests.  The code under test runs on real
// threads, but only one of them runs at a time: which one, and for how long, are choices of the case (drawn from
// its Src), so a schedule is generated, replayed and shrunk like any other input.  Threads can be interrupted at
// every memory access of the instrumented code (-fsanitize-coverage=trace-loads,trace-stores) and at every
// synchronisation call; the POSIX synchronisation functions are replaced by models, and time is virtual.
#ifndef SCHED_H
#define SCHED_H
#include "pbt.h"
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace sched {
struct Opt { bool spurious = true, jumps = true, create_fails = false, signals = false; };   // signals: a sleep may be cut short
class Session {                // one case; the calling thread becomes thread 0
public:
  Session(pbt::Src &, pbt::Ctx &, Opt = Opt());
  ~Session();                  // every other thread must be finished
};
int spawn(std::function<void()> f);     // starts a harness thread
void join_all();                        // until every harness thread is finished (a deadlock fails the case)
struct Rest { std::vector<int> blocked; Rest(); ~Rest(); };   // until every other thread is finished or blocked for good; no preemption in its scope
int self();
int64_t now();                          // virtual time, microseconds
bool jumps(), spurious();               // may time pass at any moment / waits end without a reason in this case?
int64_t latest_deadline();              // of this thread's timed waits since reset_deadline
void reset_deadline();
int unreaped();                         // finished threads that nobody joined or detached
int failed_creates();
uint64_t switches();
void point();                           // an explicit preemption point
uint64_t seq();                         // a global event number
struct Quiet { Quiet(); ~Quiet(); };    // no preemption in this scope (for the harness's own bookkeeping)
[[noreturn]] void fail(const std::string &);
std::string where();                    // states of all threads

// ---- linearizability: is there an order of the operations, respecting real time, that the model allows? ----
const uint64_t PENDING = ~0ull;
typedef unsigned __int128 Mask;      // which operations have taken effect
struct Op { int thread; std::string text; uint64_t inv = 0, ret = PENDING; };
// ok(state, i, done): may operation i take effect now (and then changes state); key(state): for memoisation
template <class State, class Apply, class Key>
struct Lin {
  const std::vector<Op> &ops; Apply apply; Key key; std::unordered_set<std::string> seen; uint64_t steps = 0;
  Lin(const std::vector<Op> &o, Apply a, Key k) : ops(o), apply(a), key(k) {}
  bool go(Mask done, const State &st) {
    if (++steps > 200000) return true;            // not decided: never reported
    uint64_t horizon = PENDING; bool all = true;
    for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) { if (ops[i].ret != PENDING) all = false; horizon = std::min(horizon, ops[i].ret); }
    if (all) return true;
    std::string k((const char *)&done, sizeof done); k += key(st);
    if (!seen.insert(k).second) return false;
    for (size_t i = 0; i < ops.size(); i++) {
      if ((done >> i & 1) || ops[i].inv > horizon) continue;
      State n = st;
      if (apply(n, i, done) && go(done | (Mask)1 << i, n)) return true;
    }
    return false;
  }
};
template <class State, class Apply, class Key>
bool linearizable(const std::vector<Op> &ops, const State &init, Apply a, Key k, bool *undecided = nullptr) { Lin<State, Apply, Key> l(ops, a, k); bool r = l.go(0, init); if (undecided) *undecided = l.steps > 200000; return r; }
struct History {               // operations as the threads saw them
  std::vector<Op> ops;
  size_t begin(const std::string &text) { Quiet q; Op o; o.thread = self(); o.text = text; o.inv = seq(); ops.push_back(o); return ops.size() - 1; }
  void end(size_t i, const std::string &result) { Quiet q; ops[i].ret = seq(); if (!result.empty()) ops[i].text += " = " + result; }
};
inline std::string show(const std::vector<Op> &ops) {
  std::string r; std::vector<size_t> idx; for (size_t i = 0; i < ops.size(); i++) idx.push_back(i);
  for (size_t i : idx) r += "\n    [" + std::to_string(ops[i].inv) + ".." + (ops[i].ret == PENDING ? "never" : std::to_string(ops[i].ret)) + "] t" + std::to_string(ops[i].thread) + " " + ops[i].text;
  return r;
}
}
#endif
