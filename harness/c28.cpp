// C28: the DNS cache serves only fresh answers, within its size, and forgets on demand.
#include "lincheck.h"
#include <map>
#include <set>
#include <arpa/inet.h>
#include <netdb.h>
#include <concurrent/thread.h>
#include <network/dns.h>
using namespace pbt;
using pfi::network::cached_dns_resolver; using pfi::network::ipv4_address; using pfi::concurrent::thread;
namespace {
typedef std::pair<std::string, int> Key;
struct Call { Key k; int64_t t0, t1; uint64_t s0, s1; int thread; std::vector<ipv4_address> ans; };
struct World { bool on = false; std::vector<Call> calls; double delay = 0; unsigned serial = 0; std::map<int, int> plan; } W;
std::string text(const std::vector<ipv4_address> &v) { std::string r = "["; for (auto &a : v) r += a.to_string() + " "; return r + "]"; }
}
// The stand-in resolver: every call gets a different answer; some find nothing.
extern "C" int getaddrinfo(const char *host, const char *port, const addrinfo *hints, addrinfo **res) {
  Call c; size_t idx; int n;
  { sched::Quiet q; c.k = Key(host ? host : "", port ? atoi(port) : -1); c.t0 = sched::now(); c.s0 = sched::seq(); c.thread = sched::self(); W.serial++;
    n = W.plan.count(W.serial) ? W.plan[W.serial] : 1;
    for (int i = 0; i < n; i++) c.ans.push_back(ipv4_address(10, W.serial >> 8 & 255, W.serial & 255, i + 1));
    idx = W.calls.size(); c.s1 = sched::PENDING; W.calls.push_back(c); }
  if (W.delay > 0) thread::sleep(W.delay); else sched::point();
  sched::Quiet q; W.calls[idx].t1 = sched::now(); W.calls[idx].s1 = sched::seq();
  if (n == 0) return EAI_NONAME;
  addrinfo *head = nullptr;
  for (int i = n; i-- > 0;) {
    addrinfo *a = new addrinfo(); sockaddr_in *sa = new sockaddr_in(); sa->sin_family = AF_INET; inet_pton(AF_INET, c.ans[i].to_string().c_str(), &sa->sin_addr);
    a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (sockaddr *)sa; a->ai_addrlen = sizeof *sa; a->ai_next = head; head = a;
  }
  *res = head; return 0;
}
extern "C" void freeaddrinfo(addrinfo *a) noexcept { sched::Quiet q; while (a) { addrinfo *n = a->ai_next; delete (sockaddr_in *)a->ai_addr; delete a; a = n; } }
extern "C" int getnameinfo(const sockaddr *sa, socklen_t len, char *h, socklen_t hl, char *, socklen_t, int) {
  sched::Quiet q; if (len < sizeof(sockaddr_in) || sa->sa_family != AF_INET) return EAI_FAMILY;
  return inet_ntop(AF_INET, &((const sockaddr_in *)sa)->sin_addr, h, hl) ? 0 : EAI_OVERFLOW;
}
namespace {
Key key(Src &s) { static const char *h[] = {"a.example", "b.example", "c.example", "A.example", "", "a.example.", "b"}; return Key(h[s.coin(1, 3) ? s.choose(7) : s.choose(3)], s.coin(1, 3) ? s.pick({0, 80, 81, 65535}) : 80); }
void reset(Src &s) { W = World(); int n = (int)s.choose(6); for (int i = 0; i < n; i++) W.plan[(int)s.range(1, 30)] = s.pick({0, 2, 3}); }
// One thread: the cache against a model.  Which of several entries last used in the same second is dropped is open, so
// the model is the set of states that are still possible.
struct Entry { std::vector<ipv4_address> ans; int64_t got, used; bool operator<(const Entry &o) const { return std::make_pair(got, used) < std::make_pair(o.got, o.used); } };
typedef std::map<Key, Entry> State;
void model(Src &s, Ctx &c) {
  reset(s); int max = (int)s.range(1, 4), expire = (int)s.pick({1, 2, 5, 10, 3600, 0}), n = (int)s.range(3, 30); W.delay = s.coin(1, 6) ? s.pick({0.5, 1.0, 3.0}) : 0; bool large = s.coin(1, 12); if (large) { max = (int)s.range(5, 40); expire = 3600; n = (int)s.range(max, 3 * max + 10); }
  struct Cmd { int k; Key key; double sec; }; std::vector<Cmd> cmds; if (large) c.label("large cache");
  for (int i = 0; i < n; i++) { if (large) { Cmd x; x.k = s.coin(1, 25) ? 2 : 0; x.key = Key("h" + std::to_string(s.choose((uint64_t)max + 5)), 80); x.sec = 0; cmds.push_back(x); Cmd y; y.k = 1; y.key = x.key; y.sec = 1.0; cmds.push_back(y); continue; } Cmd x; int k = (int)s.choose(20); x.k = k < 12 ? 0 : k < 17 ? 1 : k < 19 ? 2 : 3; x.key = key(s); x.sec = s.pick({0.4, 1.0, 1.5, 2.0, 5.0, 11.0, 0.000001}) ; if (s.coin(1, 10)) x.sec = expire; cmds.push_back(x); }
  sched::Opt o; o.jumps = false; sched::Session ses(s, c, o);
  cached_dns_resolver r(max, expire);
  std::vector<State> poss(1); int hits = 0, misses = 0, evictions = 0, expiries = 0; std::string log;
  for (auto &x : cmds) {
    if (x.k == 1) { thread::sleep(x.sec); continue; }
    if (x.k == 2) { r.delete_cache(x.key.first, x.key.second); for (auto &p : poss) p.erase(x.key); continue; }
    if (x.k == 3) { r.clear_cache(); for (auto &p : poss) p.clear(); continue; }
    size_t before = W.calls.size(); int64_t t0 = sched::now() / 1000000;
    auto got = r.resolve(x.key.first, x.key.second);
    sched::Quiet q; int64_t t1 = sched::now() / 1000000; size_t asked = W.calls.size() - before;
    CHECK(asked <= 1, "one lookup asks the resolver " << asked << " times");
    if (asked) CHECK(W.calls.back().k == x.key, "the resolver is asked for " << show(W.calls.back().k.first) << ":" << W.calls.back().k.second << " instead of " << show(x.key.first) << ":" << x.key.second);
    if (asked) { CHECK(got == W.calls.back().ans, "the answer " << text(got) << " is not the resolver's " << text(W.calls.back().ans)); misses++; } else hits++;
    std::vector<State> next; std::string why;
    for (auto &p : poss) for (int64_t cur = t0; cur <= t1; cur += asked ? std::max<int64_t>(1, t1 - t0) : 1) {   // the clock may pass a second anywhere inside the call
      auto it = p.find(x.key); bool held = it != p.end();
      if (!asked) {
        if (!held) { why = "an answer is served that the cache cannot hold"; continue; }
        if (cur - it->second.got >= expire) { why = "an answer is served " + std::to_string(cur - it->second.got) + " s after it was obtained (limit " + std::to_string(expire) + " s)"; continue; }
        if (it->second.ans != got) { why = "the answer served is not the one obtained for this host and port"; continue; }
        State q2 = p; q2[x.key].used = cur; next.push_back(q2);
      } else {
        if (held && cur - it->second.got < expire) { why = "a fresh entry is asked for again"; continue; }
        State q2 = p; if (held) { q2.erase(x.key); }
        // drop the least recently used until there is room; got: the moment of asking or of the answer
        std::vector<State> stage{q2};
        while (!stage.empty() && (int)stage[0].size() >= max) {
          std::vector<State> st2;
          for (auto &z : stage) { int64_t m = INT64_MAX; for (auto &e : z) m = std::min(m, e.second.used); for (auto &e : z) if (e.second.used == m) { State y = z; y.erase(e.first); st2.push_back(y); } }
          stage = st2;
        }
        for (auto &z : stage) for (int64_t g = t0; g <= t1; g += std::max<int64_t>(1, t1 - t0)) { State y = z; y[x.key] = Entry{got, g, cur}; next.push_back(y); if (t1 == t0) break; }
      }
    }
    CHECK(!next.empty(), "lookup of " << show(x.key.first) << ":" << x.key.second << (asked ? " (asked the resolver)" : " (served from the cache)") << " with room for " << max << " entries kept " << expire << " s: " << why << log);
    std::set<std::string> seen; poss.clear();
    for (auto &z : next) { std::string k; for (auto &e : z) k += e.first.first + ":" + std::to_string(e.first.second) + "@" + std::to_string(e.second.got) + "," + std::to_string(e.second.used) + text(e.second.ans) + ";"; if (seen.insert(k).second && poss.size() < 400) poss.push_back(z); else if (poss.size() >= 400) { c.label("model gave up"); return; } }
    log += "\n    " + std::to_string(t0 % 100000) + " s: " + show(x.key.first) + ":" + std::to_string(x.key.second) + (asked ? " asked" : " served");
  }
  (void)evictions; (void)expiries;
  NOTE("room for " << max << ", kept " << expire << " s:" << log); c.nt(hits > 0 && misses > 1); if (hits) c.label("served from the cache", hits); c.label("asked", misses);
}
// Several threads.
void threads(Src &s, Ctx &c) {
  reset(s); int nt = (int)s.range(2, 4), max = (int)s.range(1, 3), expire = (int)s.pick({1, 3, 1000}); W.delay = s.coin(1, 3) ? s.pick({0.2, 1.0}) : 0;
  struct Cmd { int k; Key key; double sec; }; std::vector<std::vector<Cmd>> prog(nt);
  for (auto &p : prog) { int n = (int)s.range(1, 5); while (n--) { Cmd x; int k = (int)s.choose(16); x.k = k < 11 ? 0 : k < 13 ? 1 : k < 15 ? 2 : 3; x.key = Key(s.pick({"a", "b", "c"}), 80); if (s.coin(1, 8)) x.key.second = 81; x.sec = s.pick({0.1, 1.0, 4.0}); p.push_back(x); } }
  sched::Session ses(s, c);
  cached_dns_resolver r(max, expire);
  struct Ev { int kind; Key k; uint64_t s0, s1; int64_t t0, t1; std::vector<ipv4_address> got; int thread; }; std::vector<Ev> ev;
  auto look = [&](const Key &k) {
    Ev e; { sched::Quiet q; e.kind = 0; e.k = k; e.s0 = sched::seq(); e.t0 = sched::now(); e.thread = sched::self(); }
    e.got = r.resolve(k.first, k.second);
    sched::Quiet q; e.s1 = sched::seq(); e.t1 = sched::now(); ev.push_back(e);
  };
  for (auto &p : prog) sched::spawn([&] { for (auto &x : p) {
    if (x.k == 0) look(x.key);
    else if (x.k == 1) thread::sleep(x.sec);
    else { Ev e; { sched::Quiet q; e.kind = x.k; e.k = x.key; e.s0 = sched::seq(); } if (x.k == 2) r.delete_cache(x.key.first, x.key.second); else r.clear_cache(); sched::Quiet q; e.s1 = sched::seq(); ev.push_back(e); }
  } });
  sched::join_all();
  size_t held = 0;
  for (const char *h : {"a", "b", "c"}) for (int p : {80, 81}) { size_t b = W.calls.size(); look(Key(h, p)); if (W.calls.size() == b) held++; }
  sched::Quiet q;
  CHECK(held <= (size_t)max, "a cache of " << max << " entries holds " << held);
  for (auto &e : ev) {
    if (e.kind) continue;
    // which call of the resolver gave this answer?  (empty answers cannot be told apart)
    bool own = false; for (auto &x : W.calls) if (x.thread == e.thread && x.s0 > e.s0 && x.s0 < e.s1) { own = true; CHECK(x.k == e.k, "the wrong name was asked for"); CHECK(x.ans == e.got, "the answer " << text(e.got) << " is not the resolver's " << text(x.ans)); }
    if (own) continue;
    bool ok = false; std::string why = "no call of the resolver gave this answer for this name and port";
    for (auto &x : W.calls) if (x.k == e.k && x.ans == e.got && x.s1 < e.s1) {
      if (x.t1 / 1000000 + expire <= e.t0 / 1000000) { why = "it is too old"; continue; }
      // the lookup that made the call must not be over before a deletion that was over before this lookup began
      uint64_t made_end = 0; for (auto &m : ev) if (m.kind == 0 && m.thread == x.thread && m.s0 < x.s0 && m.s1 > x.s1) made_end = m.s1;
      bool dead = false; for (auto &d : ev) if (d.kind && (d.kind == 3 || d.k == e.k) && d.s0 > made_end && made_end && d.s1 < e.s0) dead = true;
      if (dead) { why = "it was deleted"; continue; }
      ok = true;
    }
    CHECK(ok, "a lookup of " << e.k.first << ":" << e.k.second << " is served " << text(e.got) << " from the cache: " << why);
  }
  NOTE(nt << " threads, " << W.calls.size() << " calls of the resolver for " << ev.size() << " operations"); c.nt(sched::switches() > (uint64_t)nt * 2);
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C28";
  r.rule = "Generated sequences of lookups, deletions, clears and passing time on a cache of 1-4 entries with generated expiry, over a stand-in resolver whose every answer is different and a virtual clock, against a model of the cache; and 2-4 threads running such sequences" SCHED_RULE ", where each answer must be the resolver's own, recent enough and not deleted before. Non-trivial: some lookups asked and some were served (one thread), more thread switches than starts and ends (several).";
  r.props = {{"model", model, 30000, 600000, false}, {"threads", threads, 10000, 200000, false}};
  r.assumptions = {SCHED_ASSUME, "The least recently used entry is determined to the second; ages are in whole seconds of the clock.", "The system's getaddrinfo is replaced by a stand-in; the cache has room for at least one entry."};
  return r;
}
}
