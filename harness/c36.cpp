// C36: a shared single instance is made once, before anyone uses it, under every interleaving of first uses.
#include "lincheck.h"
#include <sys/wait.h>
#include <unistd.h>
#include <lang/singleton.h>
using namespace pbt;
namespace pbt { [[noreturn]] void fail_now(const std::string &); const char *slot_message(); }
namespace {
struct Info { int made = 0, tries = 0, failures = 0; bool nested = false; std::vector<const void *> seen; };
Info info[8];
struct Refuse {};
template <int N> struct Obj {
  volatile int a[6]; volatile bool complete; std::string text;
  Obj();
  bool good() const { for (int i = 0; i < 6; i++) if (a[i] != N * 10 + i) return false; return complete && text == "instance " + std::to_string(N); }
};
template <int N> void use();
template <> void use<8>() {}
template <int N> Obj<N>::Obj() : complete(false) {
  { sched::Quiet q; info[N].tries++; }
  for (int i = 0; i < 6; i++) { a[i] = N * 10 + i; if (i == 3) sched::point(); }
  if (info[N].nested) use<N + 1>();
  { sched::Quiet q; if (info[N].failures > 0) { info[N].failures--; throw Refuse(); } }
  text = "instance " + std::to_string(N);
  { sched::Quiet q; info[N].made++; }
  complete = true;
}
template <int N> void use() {
  for (;;) {
    try {
      Obj<N> &o = pfi::lang::singleton<Obj<N> >::instance();
      sched::Quiet q; CHECK(o.good(), "instance " << N << " is handed out before it is complete"); info[N].seen.push_back(&o);
      return;
    } catch (Refuse &) { sched::point(); }
  }
}
void pick_use(int k) {
  switch (k) { case 0: use<0>(); break; case 1: use<1>(); break; case 2: use<2>(); break; case 3: use<3>(); break; case 4: use<4>(); break; case 5: use<5>(); break; case 6: use<6>(); break; default: use<7>(); }
}
void child(Src &s, Ctx &c) {
  int nt = (int)s.range(2, 4), types = (int)s.range(1, 8); std::vector<std::vector<int>> prog(nt);
  for (int i = 0; i < types; i++) { info[i].failures = s.coin(1, 6) ? (int)s.range(1, 2) : 0; info[i].nested = i + 1 < types && s.coin(1, 5); }
  for (auto &p : prog) { int n = (int)s.range(1, 6); while (n--) p.push_back((int)s.choose(types)); }
  sched::Session ses(s, c);
  for (auto &p : prog) sched::spawn([&] { for (int k : p) pick_use(k); });
  sched::join_all();
  for (int i = 0; i < 8; i++) {
    CHECK(info[i].seen.empty() ? info[i].made <= 1 : info[i].made == 1, "instance " << i << " was made " << info[i].made << " times");
    for (auto p : info[i].seen) CHECK(p == info[i].seen[0], "callers got different instances of one type");
  }
}
void first_use(Src &s, Ctx &c) {     // in a process of its own: an instance lives as long as its process
  pid_t pid = fork();
  if (pid == 0) { try { child(s, c); } catch (const Fail &f) { fail_now(f.msg); } _exit(0); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { c.nt(); NOTE("concurrent first uses in a fresh process"); return; }
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) fail_now(slot_message());
  _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C36";
  r.rule = "2-4 threads make up to 6 generated uses each of the shared instances of up to 8 types, whose constructors are long, may use another type's instance and may fail at first," SCHED_RULE ", each case in a fresh process; every caller must get the same, complete object, made exactly once. Every case is non-trivial: at least two threads use instances for the first time.";
  r.props = {{"first_use", first_use, 6000, 150000, false}};
  r.assumptions = {SCHED_ASSUME};
  return r;
}
}
