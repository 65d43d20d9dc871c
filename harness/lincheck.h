// Runs generated programs of several threads against one object and checks the history for linearizability.
#ifndef LINCHECK_H
#define LINCHECK_H
#include "schedule.h"
// Act: one operation with its arguments and, afterwards, its results.
//   text(a): its name and arguments; exec(a): runs it, returns its result as text; blocking(a): may it wait for ever?
//   enabled(st, a): could it proceed in st?  step(st, a): may it have taken effect with its results in st (changes st)?
//   release(pending): an operation that lets at least one of the blocked ones proceed
template <class Act, class St>
struct Linear {
  sched::History h; std::vector<Act> acts; std::vector<std::vector<size_t>> rest;   // rest[i]: blocked operations, when i is a point of rest
  std::vector<bool> is_rest;
  std::function<std::string(const Act &)> text; std::function<std::string(Act &)> exec; std::function<bool(const Act &)> blocking;
  std::function<bool(const St &, const Act &)> enabled; std::function<bool(St &, const Act &)> step; std::function<Act(const std::vector<Act> &)> release;
  std::function<std::string(const St &)> key; std::function<void(const Act &, double)> timing;
  std::function<std::vector<Act>(size_t)> expand;    // an operation that takes effect in several steps
  std::function<void()> finish;
  bool waited = false;
  size_t start(const std::string &t, const Act &a, bool r, std::vector<size_t> p = {}) { sched::Quiet q; size_t i = h.begin(t); acts.push_back(a); is_rest.push_back(r); rest.push_back(std::move(p)); return i; }
  void run(Act a) {
    size_t i; { sched::Quiet q; i = start(text(a), a, false); }
    int64_t t0 = sched::now();
    std::string r = exec(a);
    sched::Quiet q; int64_t t1 = sched::now();
    h.end(i, r); acts[i] = a;
    if (timing) timing(a, (t1 - t0) * 1e-6);
  }
  void check(const std::vector<std::vector<Act>> &prog, const St &init, pbt::Ctx &c, const std::string &what) {
    for (auto &p : prog) sched::spawn([this, &p] { for (auto &a : p) run(a); });
    for (int round = 0;; round++) {
      sched::Rest rs; std::vector<int> &bl = rs.blocked;
      std::vector<size_t> pend; std::vector<Act> pa; std::string txt;
      for (size_t i = 0; i < h.ops.size(); i++) if (h.ops[i].ret == sched::PENDING) {
        pend.push_back(i); pa.push_back(acts[i]); txt += " " + h.ops[i].text;
        if (!blocking(acts[i])) sched::fail(h.ops[i].text + " never returns" + sched::show(h.ops));
      }
      size_t i = start("everything at rest; blocked:" + txt, Act(), true, pend); h.end(i, "");
      if (bl.empty()) break;
      waited = true;
      if (bl.size() != pend.size()) sched::fail("a thread is blocked outside an operation" + sched::show(h.ops));
      if (round > 40 || h.ops.size() > 60) sched::fail("the blocked operations never finish" + sched::show(h.ops));
      Act f = release(pa);
      sched::spawn([this, f] { run(f); });
    }
    sched::join_all();
    if (finish) finish();
    sched::Quiet q;
    std::string hist = sched::show(h.ops);
    NOTE(what << ", history:" << hist);
    if (expand) {
      std::vector<sched::Op> o2; std::vector<Act> a2; std::vector<std::vector<size_t>> r2; std::vector<bool> i2; std::vector<size_t> at(h.ops.size());
      for (size_t i = 0; i < h.ops.size(); i++) {
        at[i] = o2.size(); std::vector<Act> e{acts[i]}; if (!is_rest[i]) e = expand(i);
        for (auto &a : e) { o2.push_back(h.ops[i]); a2.push_back(a); r2.push_back(rest[i]); i2.push_back(is_rest[i]); }
      }
      for (auto &r : r2) for (auto &p : r) p = at[p];
      h.ops = o2; acts = a2; rest = r2; is_rest = i2;
    }
    if (h.ops.size() > 126) { c.label("history too long to decide"); return; }
    auto apply = [&](St &st, size_t i, sched::Mask done) {
      if (is_rest[i]) { for (size_t p : rest[i]) if ((done >> p & 1) || enabled(st, acts[p])) return false; return true; }
      return step(st, acts[i]);
    };
    bool und = false, ok = sched::linearizable(h.ops, init, apply, key, &und); if (und) c.label("search for an order given up");
    CHECK(ok, "no order of the operations explains this history of " << what << ":" << hist);
    c.nt(prog.size() > 1 && sched::switches() > prog.size() * 2);
    if (waited) c.label("some operation had to wait"); if (sched::jumps()) c.label("time passes at any moment"); if (sched::spurious()) c.label("spurious wake-ups");
  }
};
#define SCHED_RULE " under a generated schedule (preemption at any memory access and synchronisation call, spurious wake-ups, virtual time)"
#define SCHED_ASSUME "Threads interleave at memory accesses and synchronisation calls (sequential consistency); the POSIX primitives are modelled, including spurious wake-ups and writer preference."
#endif
