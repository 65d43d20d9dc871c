// C35: a started thread runs its function exactly once; joining waits for it; handles behave under every call order.
#include "lincheck.h"
#include <memory>
#include <set>
#include <concurrent/thread.h>
using namespace pbt;
using pfi::concurrent::thread;
namespace {
struct Board { int alive = 0; std::vector<int> runs, finished; std::set<thread::tid_t> ids; };
static bool may_break = false;   // sleeps may be interrupted in this case
// The function object: every copy is counted and carries data that must still be there when it runs.
struct Fn {
  Board *b; int id; double dur; std::string data; uint64_t magic;
  Fn(Board *b_, int i, double d) : b(b_), id(i), dur(d), data("the state bound to function " + std::to_string(i)), magic(0x5ca1ab1e) { sched::Quiet q; b->alive++; }
  Fn(const Fn &o) : b(o.b), id(o.id), dur(o.dur), data(o.data), magic(o.magic) { sched::Quiet q; b->alive++; }
  ~Fn() { sched::Quiet q; magic = 0; b->alive--; }
  void operator()() {
    thread::tid_t me = thread::id();
    { sched::Quiet q; CHECK(magic == 0x5ca1ab1e && data == "the state bound to function " + std::to_string(id), "the function runs with a state that is gone"); b->runs[id]++; CHECK(b->ids.insert(me).second, "two running threads have the same id"); }
    if (dur > 0) { CHECK(thread::sleep(dur) || may_break, "sleep() fails"); } else if (dur < 0) thread::yield();
    sched::point();
    CHECK(thread::id() == me, "the id of a thread changes while it runs");
    { sched::Quiet q; CHECK(magic == 0x5ca1ab1e && data == "the state bound to function " + std::to_string(id), "the state of a running function is destroyed"); b->ids.erase(me); b->finished[id]++; }
  }
};
enum K { START, JOIN, DETACH, DESTROY, SLEEP, YIELD };
struct Cmd { K k; int obj; double sec; };
struct Prog { std::vector<double> dur; std::vector<bool> empty; std::vector<Cmd> cmds; int base; };
void handles(Src &s, Ctx &c) {
  int nc = (int)s.range(1, 2), nf = 0; std::vector<Prog> progs;
  for (int t = 0; t < nc; t++) {
    Prog p; p.base = nf; int no = (int)s.range(1, 3);
    for (int i = 0; i < no; i++) { p.dur.push_back(s.pick({0.0, -1.0, 0.01, 2.0})); p.empty.push_back(s.coin(1, 10)); nf++; }
    int n = (int)s.range(1, 10);
    for (int i = 0; i < n; i++) { Cmd x; x.k = s.pick({START, START, JOIN, JOIN, DETACH, DESTROY, SLEEP, YIELD}); x.obj = (int)s.choose(no); x.sec = s.pick({0.0, 0.005, 1.0, 3.0, -1.0}); p.cmds.push_back(x); }
    progs.push_back(p);
  }
  sched::Opt opt; opt.create_fails = s.coin(1, 4); opt.signals = s.coin(1, 4); if (opt.signals) c.label("sleeps may be interrupted"); may_break = opt.signals;
  sched::Session ses(s, c, opt);
  Board b; b.runs.assign(nf, 0); b.finished.assign(nf, 0); std::vector<int> starts(nf, 0); int joins = 0, refused = 0;
  for (auto &p : progs) sched::spawn([&] {
    int no = (int)p.dur.size(); std::vector<std::unique_ptr<thread>> th; std::vector<bool> running(no, false);
    for (int i = 0; i < no; i++) { if (p.empty[i]) th.emplace_back(new thread(pfi::lang::function<void()>())); else { Fn f(&b, p.base + i, p.dur[i]); th.emplace_back(new thread(f)); } }
    std::string log;
    for (auto &x : p.cmds) {
      int i = x.obj, f = p.base + i; if (!th[i] && x.k < SLEEP) continue;
      switch (x.k) {
        case START: {
          int before = sched::failed_creates(); bool r = th[i]->start();
          sched::Quiet q; bool broke = nc == 1 ? sched::failed_creates() > before : opt.create_fails;     // with one controller it is known whether this start was refused by the system
          bool can = !p.empty[i] && !running[i];
          if (!can) CHECK(!r, "start() " << (running[i] ? "of a running thread" : "without a function") << " reports success");
          else if (!broke) CHECK(r, "start() fails");
          else if (nc == 1) CHECK(!r, "start() reports success although no thread could be made");
          if (r) { running[i] = true; starts[f]++; } else refused++;
          break; }
        case JOIN: {
          bool r = th[i]->join(); sched::Quiet q;
          CHECK(r == running[i], "join() of a thread that is " << (running[i] ? "" : "not ") << "started reports " << r);
          if (r) { running[i] = false; joins++; CHECK(b.finished[f] >= 1, "join() returns before the function has finished"); if (!opt.create_fails) CHECK(b.runs[f] <= starts[f], "the function runs more often than it was started"); }
          break; }
        case DETACH: case DESTROY: {
          int64_t t0 = sched::now(); if (x.k == DETACH) th[i]->detach(); else th[i].reset();
          running[i] = false; sched::Quiet q; double el = (sched::now() - t0) * 1e-6;
          if (!sched::jumps()) CHECK(el < 0.005, (x.k == DETACH ? "detach()" : "destroying a thread object") << " waits for the function: " << el << " s");
          break; }
        case SLEEP: {
          int64_t t0 = sched::now(); bool r = thread::sleep(x.sec); sched::Quiet q; double el = (sched::now() - t0) * 1e-6;
          CHECK(r || opt.signals, "sleep() fails"); if (r) CHECK(el >= x.sec - 1e-6, "sleep(" << x.sec << ") returns after " << el << " s"); if (!sched::jumps()) CHECK(el <= std::max(0.0, x.sec) + 0.1, "sleep(" << x.sec << ") takes " << el << " s");
          break; }
        default: thread::yield();
      }
    }
  });
  { sched::Rest r; CHECK(r.blocked.empty(), "a thread never finishes"); }
  sched::join_all();
  for (int f = 0; f < nf; f++) CHECK(b.runs[f] == starts[f] && b.finished[f] == starts[f], "a function started " << starts[f] << " times ran " << b.runs[f] << " times and finished " << b.finished[f] << " times");
  CHECK(b.alive == 0, b.alive << " copies of functions are left when their threads are finished and their handles gone");
  CHECK(sched::unreaped() == 0, sched::unreaped() << " finished threads were neither joined nor detached when their handles went away");
  int st = 0; for (int x : starts) st += x;
  NOTE(nc << " controllers, " << nf << " handles, " << st << " starts, " << joins << " joins, " << refused << " refused starts"); c.nt(st > 0 && sched::switches() > 2); if (refused) c.label("some start refused"); if (opt.create_fails) c.label("thread creation may fail");
}
// Joining really waits: everything the function did is visible afterwards; a handle can be started again.
void again(Src &s, Ctx &c) {
  int n = (int)s.range(1, 3), rounds = (int)s.range(1, 3); std::vector<double> dur; for (int i = 0; i < n * rounds; i++) dur.push_back(s.pick({0.0, -1.0, 0.02, 1.0}));
  sched::Session ses(s, c);
  volatile int sum = 0; int want = 0; std::vector<int> cell(n, 0);
  for (int r = 0; r < rounds; r++) {
    std::vector<std::unique_ptr<thread>> th; std::vector<int> done(n, 0);
    for (int i = 0; i < n; i++) { double d = dur[r * n + i]; th.emplace_back(new thread([&, i, d] { for (int k = 0; k < 3; k++) { cell[i] = cell[i] + 1; if (d > 0) thread::sleep(d); else if (d < 0) thread::yield(); } done[i] = 1; })); CHECK(th[i]->start(), "start() fails"); CHECK(!th[i]->start(), "a second start() succeeds"); }
    for (int i = n; i-- > 0;) { CHECK(th[i]->join(), "join() fails"); CHECK(done[i] == 1 && cell[i] == 3 * (r + 1), "join() returns before the function is finished"); CHECK(!th[i]->join(), "a second join() succeeds"); }
    if (s.coin()) for (int i = 0; i < n; i++) { done[i] = 0; CHECK(th[i]->start(), "start() after join() fails"); CHECK(th[i]->join() && done[i] == 1, "join() after the second start() fails"); cell[i] = cell[i] - 3; }
    want += n; sum = sum + n;
  }
  NOTE(n << " threads, " << rounds << " rounds"); c.nt(sched::switches() > 2);
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C35";
  r.rule = "1-2 controlling threads run generated orders of start, join, detach, destruction, sleep and yield on 1-3 thread objects each, whose functions take generated time and whose creation may fail," SCHED_RULE "; every result is compared with a model of the handle, functions check that their bound state is alive, and at the end each ran exactly as often as it was started, no copy of it is left, and every thread was joined or detached. Non-trivial: something was started and threads switched.";
  r.props = {{"handles", handles, 16000, 300000, false}, {"again", again, 4000, 60000, false}};
  r.assumptions = {SCHED_ASSUME, "One thread object is controlled by one thread at a time; functions do not throw.", "Sleep lasts by the virtual clock; interruption by signals is not generated."};
  return r;
}
}
