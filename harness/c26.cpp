// C26: remote calls over the loopback network: real servers, real client threads
#include "ser.h"
#include <functional>
#include <mutex>
#include <thread>
#include <tuple>
#include <unistd.h>
#include <network/rpc.h>
#include <arpa/inet.h>
#include <atomic>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
// The library's TCP sockets, carried by AF_UNIX sockets with names of this process: no port is ever exhausted or shared
// with another worker.  With `tcp` set they are real loopback TCP sockets.
static bool tcp; static std::atomic<int> bad_accepts; static std::atomic<bool> no_ports; static std::atomic<int> next_port{2000}; static std::mutex pm; static std::map<int, int> fd_port;
static socklen_t name_of(sockaddr_un &u, int port) { memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; int n = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "pbt-c26-%d-%d", (int)getpid(), port); return (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + n); }
static int ports(int r) { if (r < 0 && (errno == EADDRNOTAVAIL || errno == EADDRINUSE)) { int e = errno; no_ports = true; errno = e; } return r; }
extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const sockaddr *, socklen_t); int __real_connect(int, const sockaddr *, socklen_t); int __real_accept(int, sockaddr *, socklen_t *); int __real_getsockname(int, sockaddr *, socklen_t *); int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_socket(int d, int t, int p) { return __real_socket(!tcp && d == AF_INET ? AF_UNIX : d, t, p); }
int __wrap_bind(int fd, const sockaddr *a, socklen_t n) { if (tcp) return ports(__real_bind(fd, a, n)); int port = ntohs(((const sockaddr_in *)a)->sin_port); if (!port) port = next_port++; sockaddr_un u; n = name_of(u, port); int r = __real_bind(fd, (sockaddr *)&u, n); if (r == 0) { std::lock_guard<std::mutex> l(pm); fd_port[fd] = port; } return r; }
int __wrap_getsockname(int fd, sockaddr *a, socklen_t *n) { if (tcp) return __real_getsockname(fd, a, n); sockaddr_in *i = (sockaddr_in *)a; memset(i, 0, sizeof *i); i->sin_family = AF_INET; std::lock_guard<std::mutex> l(pm); i->sin_port = htons((uint16_t)fd_port[fd]); *n = sizeof *i; return 0; }
int __wrap_connect(int fd, const sockaddr *a, socklen_t n) { if (tcp || a->sa_family != AF_INET) return ports(__real_connect(fd, a, n)); sockaddr_un u; n = name_of(u, ntohs(((const sockaddr_in *)a)->sin_port)); return __real_connect(fd, (sockaddr *)&u, n); }
int __wrap_accept(int fd, sockaddr *a, socklen_t *n) { int bad = bad_accepts; if (bad > 0 && bad_accepts.compare_exchange_strong(bad, bad - 1)) { errno = bad % 3 == 0 ? EMFILE : bad % 3 == 1 ? ECONNABORTED : EINTR; return -1; } if (tcp) return __real_accept(fd, a, n); int r = __real_accept(fd, nullptr, nullptr); if (r >= 0 && a) { sockaddr_in *i = (sockaddr_in *)a; memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(INADDR_LOOPBACK); i->sin_port = htons(1); *n = sizeof *i; } return r; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return !tcp && l == IPPROTO_TCP ? 0 : __real_setsockopt(fd, l, o, v, n); }
}
using namespace pbt; namespace rpc = pfi::network::rpc;
static std::string P(const char *n) { return tcp ? n + std::string(".") + std::to_string(getpid()) : n; }   // other workers' servers may come to listen on a port we just closed
static std::mutex mu; static std::map<std::string, int> ran;    // name + encoded arguments -> executions
static void log(const std::string &k) { std::lock_guard<std::mutex> l(mu); ran[k]++; }
static uint64_t hash(const std::string &k) { uint64_t h = 1469598103934665603ull; for (unsigned char x : k) h = (h ^ x) * 1099511628211ull; return h; }
template <class R> static R result(const std::string &k) { Src s; s.seed(hash(k)); R r; ser::gen(s, r); return r; }
static void big(std::string &v, const std::string &k) { if (hash(k) % 7 == 0) v.assign(hash(k) % 30000, (char)hash(k)); }
template <class R> static void big(R &, const std::string &) {}
template <class R> static R answer(const std::string &k) { R r = result<R>(k); big(r, k); return r; }
inline void encs(std::string &) {}
template <class A, class... B> static void encs(std::string &o, const A &a, const B &...b) { ser::enc(o, a); encs(o, b...); }
template <class R, class... A> struct Fn {
  static R run(std::string name, A... a) { std::string k = name + "\n"; encs(k, a...); log(k); return answer<R>(k); }
};
struct Op { std::string key, what; std::function<void(rpc::rpc_client &)> run; };
template <size_t... I> struct seq {}; template <size_t N, size_t... I> struct mkseq : mkseq<N - 1, N - 1, I...> {}; template <size_t... I> struct mkseq<0, I...> { typedef seq<I...> type; };
template <class R, class T, class F, size_t... I> static R apply(F &f, const T &t, seq<I...>) { return f(std::get<I>(t)...); }
template <class T, size_t... I> static std::string key(const std::string &n, const T &t, seq<I...>) { std::string k = n + "\n"; encs(k, std::get<I>(t)...); return k; }
template <size_t I, class T> struct genall { static void go(Src &s, T &t) { genall<I - 1, T>::go(s, t); ser::gen(s, std::get<I - 1>(t)); } }; template <class T> struct genall<0, T> { static void go(Src &, T &) {} };
inline void stretch(Src &s, std::string &v) { if (s.coin(1, 6)) v = s.blob(s.edge_len(40000)); }
template <class T> static void stretch(Src &s, std::vector<T> &v) { if (s.coin(1, 10) && v.size()) v.resize(s.edge_len(3000), v[0]); }
template <class T> static void stretch(Src &, T &) {}
template <class R, class... A> static Op op(Src &s, const std::string &name) {
  typedef std::tuple<A...> T; typedef typename mkseq<sizeof...(A)>::type S; auto t = std::make_shared<T>(); genall<sizeof...(A), T>::go(s, *t); stretch(s, std::get<0>(*t)); std::string k = key(name, *t, S());
  return Op{k, name + "(" + std::to_string(k.size()) + " bytes)", [=](rpc::rpc_client &c) { pfi::lang::function<R(A...)> f = c.call<R(A...)>(name); R r = apply<R>(f, *t, S()); if (!(r == answer<R>(k))) throw Fail(name + " returned another value than the function"); }};
}
typedef std::vector<std::string> VS; typedef std::map<std::string, int> MI; typedef std::set<long> SL; typedef std::pair<int, std::string> PI;
#define FN(n, ...) s.add<n##_sig>(#n, pfi::lang::function<n##_sig>([](__VA_ARGS__)
typedef std::string s1(std::string); typedef int s2(int, std::string); typedef Rec s3(VS, bool, Rec); typedef VS s4(MI, int, VS, PI); typedef MI s5(std::string, std::string, double, SL, int); typedef PI s6(int, int, int, int, int, int); typedef Rec2 s7(Rec2, int, std::string, VS, bool, unsigned char, long); typedef bool s8(std::string, int, VS, MI, SL, PI, double, int); typedef std::string s9(int, std::string, int, std::string, VS, MI, bool, Rec, std::string); typedef int s0();
template <class R, class... A> static void reg(rpc::rpc_server &s, const std::string &n, R (*)(A...)) { s.add<R(A...)>(n, pfi::lang::function<R(A...)>([n](A... a) { return Fn<R, A...>::run(n, a...); })); }
template <class R, class... A> static Op mk(Src &s, const std::string &n, R (*)(A...)) { return op<R, A...>(s, n); }
static Op mk(Src &, const std::string &n, int (*)()) { std::string k = n + "\n"; return Op{k, n + "()", [=](rpc::rpc_client &c) { int r = c.call<int()>(n)(); if (r != answer<int>(k)) throw Fail(n + " returned another value than the function"); }}; }
static Op throwing(Src &s);
static Op any_op(Src &s, bool t = true) { switch (s.choose(t ? 12 : 11)) { case 11: return throwing(s);  case 0: return mk(s, P("f0"), (s0 *)0); case 1: case 10: return mk(s, P("f1"), (s1 *)0); case 2: return mk(s, P("f2"), (s2 *)0); case 3: return mk(s, P("f3"), (s3 *)0); case 4: return mk(s, P("f4"), (s4 *)0); case 5: return mk(s, P("f5"), (s5 *)0); case 6: return mk(s, P("f6"), (s6 *)0); case 7: return mk(s, P("f7"), (s7 *)0); case 8: return mk(s, P("f8"), (s8 *)0); default: return mk(s, P("f9"), (s9 *)0); } }
// functions that throw: the caller is told so, with the message
struct Custom : std::exception { std::string m; Custom(const std::string &m) : m(m) {} const char *what() const noexcept { return m.c_str(); } };
[[noreturn]] static void thrown(int how, const std::string &m) { switch (how & 7) { case 0: throw rpc::rpc_error(m); case 1: throw rpc::cannot_get_connection(); case 2: throw rpc::method_not_found(m); case 3: throw rpc::version_mismatch(3, 4); case 4: throw Custom(m); case 5: throw std::out_of_range(m); case 6: throw std::logic_error(m); default: throw std::runtime_error(m); } }
static std::string told(int how, const std::string &m) { try { thrown(how, m); } catch (const std::exception &e) { return e.what(); } }
static std::string throws(std::string name, int how, std::string m, VS rest) { std::string k = name + "\n"; encs(k, how, m, rest); log(k); if (how & 8) return answer<std::string>(k); thrown(how, m); }
static Op throwing(Src &s) {
  std::string n = P("throws"), m = s.coin(1, 3) ? s.pick<std::string>({"OK", "NotFound x", "VersionMismatch 1 2", "", "NotFound", " ", "Error: x"}) : s.coin(1, 8) ? s.blob(s.edge_len(20000)) : s.utf8(10, false); int how = (int)s.choose(9); VS rest; ser::gen(s, rest); stretch(s, rest); std::string k = n + "\n"; encs(k, how, m, rest);
  return Op{k, "throws(" + std::to_string(how) + ", " + show(m.substr(0, 30)) + ")", [=](rpc::rpc_client &c) { auto f = c.call<std::string(int, std::string, VS)>(n); std::string r; try { r = f(how, m, rest); } catch (rpc::method_not_found &e) { throw Fail("a function that throws is reported as not found: " + show(e.what())); } catch (rpc::version_mismatch &e) { throw Fail("a function that throws is reported as a version mismatch"); } catch (rpc::cannot_get_connection &) { throw; } catch (const rpc::rpc_error &e) { if (how & 8) throw; if (std::string(e.what()).find(told(how, m)) == std::string::npos) throw Fail("the error " + show(std::string(e.what()).substr(0, 100)) + " does not tell " + show(told(how, m).substr(0, 100))); return; } if (!(how & 8)) throw Fail("a function that throws returned " + show(r.substr(0, 40))); if (r != answer<std::string>(k)) throw Fail("throws returned another value than the function"); }};
}
static void reg_all(rpc::rpc_server &s) { std::string tn = P("throws"); s.add<std::string(int, std::string, VS)>(tn, pfi::lang::function<std::string(int, std::string, VS)>([tn](int h, std::string m, VS r) { return throws(tn, h, m, r); })); reg(s, P("f0"), (s0 *)0); reg(s, P("f1"), (s1 *)0); reg(s, P("f2"), (s2 *)0); reg(s, P("f3"), (s3 *)0); reg(s, P("f4"), (s4 *)0); reg(s, P("f5"), (s5 *)0); reg(s, P("f6"), (s6 *)0); reg(s, P("f7"), (s7 *)0); reg(s, P("f8"), (s8 *)0); reg(s, P("f9"), (s9 *)0); }
static Op bad_name(Src &s) {   // a name nobody registered, with no, small or large arguments
  std::string n = s.pick<std::string>({"f10", "F1", "f", "g", "f1 ", "no such method", "", "a\tb", "f1\n", "x"}); if (s.coin(1, 4)) n = "x" + s.utf8(6, false); int how = (int)s.choose(3); std::string arg = how == 2 ? s.blob(s.edge_len(300000)) : s.bytes(8);
  return Op{"", "unknown " + show(n) + " with " + std::to_string(how ? arg.size() : 0) + " bytes", [=](rpc::rpc_client &c) { try { if (how) c.call<s1>(n)(arg); else c.call<s0>(n)(); } catch (rpc::method_not_found &e) { if (e.name() != n) throw Fail("method_not_found names " + show(e.name()) + ", not " + show(n)); return; } catch (const std::exception &e) { throw Fail("unknown method " + show(n) + " raises " + e.what()); } throw Fail("unknown method " + show(n) + " returned"); }};
}
static Op other_version(Src &s, uint16_t port, int version) {
  int v = version + (s.coin() ? (int)s.range(1, 5) : -(int)s.range(1, 5)); bool large = s.coin(1, 3); std::string arg = large ? s.blob(s.edge_len(300000)) : s.bytes(6);
  return Op{"", "version " + std::to_string(v), [=](rpc::rpc_client &) { rpc::rpc_client c("localhost", port, v); try { c.call<s1>(P("f1"))(arg); } catch (rpc::version_mismatch &e) { if (e.server_version() != version || e.client_version() != v) throw Fail("version_mismatch tells " + std::to_string(e.server_version()) + " and " + std::to_string(e.client_version())); return; } catch (const std::exception &e) { throw Fail(std::string("a different version raises ") + e.what()); } throw Fail("a call with a different version returned"); }};
}
struct Guard { rpc::rpc_server &s; std::function<void()> f; ~Guard() { if (f) f(); try { s.stop(); } catch (...) {} } };
struct Bag { std::mutex m; std::string err; void fail(const std::string &e) { std::lock_guard<std::mutex> l(m); if (err.empty()) err = e; } };
static void want_ran(const std::map<std::string, int> &want) { std::lock_guard<std::mutex> l(mu); for (auto &x : want) { int n = ran.count(x.first) ? ran[x.first] : 0; CHECK(n == x.second, show(x.first.substr(0, 40)) << " ran " << n << " times for " << x.second << " calls"); } CHECK(ran.size() == want.size(), "a function ran with arguments nobody sent"); }
static void history(Src &s, Ctx &c) {   // clients call concurrently; then the server is stopped and perhaps started again
  { std::lock_guard<std::mutex> l(mu); ran.clear(); } int version = (int)s.range(-2, 3), nt = 1 + (int)s.choose(4); bool slow = s.coin(1, 10); rpc::rpc_server sv(version, slow ? 0.02 : s.coin(1, 4) ? 10.0 : 0.0); reg_all(sv); CHECK(sv.is_stopped(), "a new server is not stopped"); std::unique_ptr<rpc::rpc_client> keep; Guard guard{sv, [&] { keep.reset(); }}; { bool ok = sv.start(0, nt); if (!ok && no_ports && tcp) { c.label("no ports left"); return; } CHECK(ok, "cannot start"); } CHECK(sv.is_running(), "a started server does not run"); uint16_t port = sv.port();
  size_t nc = 1 + s.choose(nt + 1); c.nt(nc > 1); NOTE(nt << " server threads, " << nc << " clients" << (slow ? ", short timeout" : "")); std::vector<std::vector<Op>> plan(nc); std::map<std::string, int> want; bool err = false;
  for (size_t i = 0; i < nc; i++) { size_t n = 1 + s.size(8); for (size_t k = 0; k < n; k++) { int w = (int)s.choose(10); Op o = w == 8 ? bad_name(s) : w == 9 && nc + 1 <= (size_t)nt ? other_version(s, port, version) : any_op(s); if (w == 8) err = true; NOTE("client " << i << ": " << o.what); if (!o.key.empty()) want[o.key]++; plan[i].push_back(o); } }
  if (err) c.label("unknown name"); c.label("calls", want.size()); Bag bag; { std::vector<std::thread> th; for (size_t i = 0; i < nc; i++) th.emplace_back([&, i] { rpc::rpc_client cl("localhost", port, version); for (auto &o : plan[i]) { try { o.run(cl); } catch (const Fail &f) { bag.fail(f.msg); } catch (const std::exception &e) { bag.fail(o.what + " raises " + e.what()); } if (slow && hash(o.what) % 3 == 0) usleep(50000); } }); for (auto &t : th) t.join(); }
  if (tcp && no_ports) { c.label("no ports left"); return; } CHECK(bag.err.empty(), bag.err); want_ran(want);
  size_t rounds = 1 + s.choose(2);
  for (size_t r = 0; r < rounds; r++) {
    if (r) { if (!(s.coin() && sv.start(port, nt))) { bool ok = sv.start(0, nt); if (no_ports && tcp) return; CHECK(ok, "a stopped server cannot be started again"); } CHECK(sv.is_running(), "a restarted server does not run"); port = sv.port(); c.label("restarted"); }
    bool held = s.coin(); keep.reset(new rpc::rpc_client("localhost", port, version)); Op o = mk(s, P("f1"), (s1 *)0); want[o.key]++; try { o.run(*keep); } catch (const Fail &) { throw; } catch (const std::exception &e) { if (no_ports) return; FAIL("a call to the server (round " << r << ") raises " << e.what()); }
    if (!held) keep.reset(); bool twice = s.coin(1, 4); NOTE("stop, " << (held ? "with" : "without") << " a connected client"); sv.stop(); if (twice) sv.stop(); CHECK(!sv.is_running(), "a stopped server still runs"); keep.reset(); sv.wait_until_stopped(); CHECK(sv.is_stopped() && !sv.is_stopping(), "the server has not stopped"); sv.wait_until_stopped();
    rpc::rpc_client late("localhost", port, version); try { late.call<s0>(P("f0"))(); FAIL("a call to a stopped server returned"); } catch (const rpc::cannot_get_connection &) {} catch (const rpc::method_not_found &) { c.label("port taken by another worker"); } catch (const rpc::version_mismatch &) {}
  }
  want_ran(want);
}
static void calls(Src &s, Ctx &c) { tcp = false; no_ports = false; history(s, c); }
static void over_tcp(Src &s, Ctx &c) { tcp = true; no_ports = false; history(s, c); }
static void load(Src &s, Ctx &c) { tcp = false;   // stop while clients call: every call returns its value or an error, and the server ends
  { std::lock_guard<std::mutex> l(mu); ran.clear(); } int nt = 1 + (int)s.choose(4); rpc::rpc_server sv(1); reg_all(sv); Guard guard{sv, nullptr}; CHECK(sv.start(0, nt), "cannot start"); uint16_t port = sv.port(); size_t nc = 1 + s.choose(nt + 1); std::vector<std::vector<Op>> plan(nc); for (auto &p : plan) for (size_t k = 0; k < 12; k++) p.push_back(any_op(s, false)); size_t delay = s.choose(2000); c.nt(); NOTE(nt << " server threads, " << nc << " clients, stop after " << delay << " us"); c.label("stop under load");
  Bag bag; std::map<std::string, int> done, tried; std::mutex dm; std::vector<std::thread> th; for (size_t i = 0; i < nc; i++) th.emplace_back([&, i] { rpc::rpc_client cl("localhost", port, 1); for (auto &o : plan[i]) { try { { std::lock_guard<std::mutex> l(dm); tried[o.key]++; } o.run(cl); std::lock_guard<std::mutex> l(dm); done[o.key]++; } catch (const Fail &f) { bag.fail(f.msg); } catch (const rpc::rpc_error &) { break; } catch (const std::exception &e) { bag.fail(std::string("another error: ") + e.what()); } } });
  usleep((useconds_t)delay); sv.stop(); for (auto &t : th) t.join(); sv.wait_until_stopped(); CHECK(sv.is_stopped(), "the server has not stopped"); CHECK(bag.err.empty(), bag.err); std::lock_guard<std::mutex> l(mu); for (auto &x : done) CHECK(ran[x.first] >= x.second && ran[x.first] <= tried[x.first], "calls that returned did not run exactly once"); for (auto &x : ran) CHECK(tried.count(x.first) && x.second <= tried[x.first], "a function ran more often than it was called");
}
RPC_PROC(m_str, std::string(std::string, int)); RPC_PROC(m_rec, Rec(Rec)); RPC_GEN(7, gen, m_str, m_rec); RPC_PROC(m_other, int(int)); RPC_GEN(7, gen2, m_str, m_other); RPC_GEN(8, gen3, m_str);
static void macros(Src &s, Ctx &c) { tcp = false;   // servers and clients generated by the RPC_PROC/RPC_GEN declarations
  gen_server sv; int n = 0; sv.set_m_str([&](std::string a, int b) { n++; return a + std::to_string(b); }); sv.set_m_rec([&](Rec r) { n++; r.a ^= 1; return r; }); Guard guard{sv, nullptr}; CHECK(sv.start(0, 1), "cannot start"); size_t calls = 1 + s.choose(4); { gen_client k("127.0.0.1", sv.port()); c.nt();
    for (size_t i = 0; i < calls; i++) { std::string a = s.bytes(20); int b = (int)s.i64(); CHECK(k.call_m_str(a, b) == a + std::to_string(b), "m_str returns another value"); Rec r; ser::gen(s, r); Rec e = r; e.a ^= 1; CHECK(k.call_m_rec(r) == e, "m_rec returns another value"); } }
  CHECK(n == (int)calls * 2, n << " executions for " << calls * 2 << " calls");
  { gen2_client k("127.0.0.1", sv.port()); try { k.call_m_other(1); FAIL("an unknown method returned"); } catch (rpc::method_not_found &e) { CHECK(e.name() == "m_other", "names " << e.name()); } CHECK(k.call_m_str("x", 1) == "x1", "after an unknown method"); }
  { gen3_client k("127.0.0.1", sv.port()); try { k.call_m_str("x", 1); FAIL("another version returned"); } catch (rpc::version_mismatch &e) { CHECK(e.server_version() == 7 && e.client_version() == 8, "versions " << e.server_version() << " " << e.client_version()); } }
  sv.stop(); sv.wait_until_stopped();
}
// raw connections: the far end is the harness, which speaks the protocol itself
static int raw_connect(int port) { int fd = __real_socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un u; socklen_t n = name_of(u, port); if (__real_connect(fd, (sockaddr *)&u, n)) { ::close(fd); throw Fail("cannot connect to the server"); } timeval tv = {20, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); return fd; }
static void raw_put(int fd, const std::string &s) { size_t p = 0; while (p < s.size()) { ssize_t r = ::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL); if (r <= 0) return; p += (size_t)r; } }
static std::string raw_all(int fd) { std::string r; char b[65536]; ssize_t n; while ((n = ::recv(fd, b, sizeof b, 0)) > 0) r.append(b, (size_t)n); if (n < 0 && errno != ECONNRESET) throw Fail("the server neither answers nor closes the connection"); return r; }
static bool raw_need(int fd, std::string &b, size_t n) { while (b.size() < n) { char x[65536]; ssize_t r = ::recv(fd, x, sizeof x, 0); if (r <= 0) return false; b.append(x, (size_t)r); } return true; }
static bool raw_string(int fd, std::string &b, std::string &v) { if (!raw_need(fd, b, 4)) return false; uint32_t n = (unsigned char)b[0] | (unsigned char)b[1] << 8 | (unsigned char)b[2] << 16 | (uint32_t)(unsigned char)b[3] << 24; if (!raw_need(fd, b, 4 + (size_t)n)) return false; v = b.substr(4, n); b.erase(0, 4 + (size_t)n); return true; }
struct Shut { int f; ~Shut() { if (f >= 0) ::close(f); } };
struct Raw { std::string bytes, want, key; bool last = false; size_t early = 0; std::string tells; };   // early: so many bytes before the end suffice for the answer
template <class R, class... A> static Raw rawcall(Src &s, const std::string &n, int ver, R (*)(A...)) { typedef std::tuple<A...> T; T t; genall<sizeof...(A), T>::go(s, t); typedef typename mkseq<sizeof...(A)>::type S; Raw r; r.key = key(n, t, S()); std::string args = r.key.substr(n.size() + 1); encs(r.bytes, n, ver); r.bytes += args; encs(r.want, std::string("OK"), answer<R>(r.key)); return r; }
static Raw any_raw(Src &s, int ver) {
  Raw r; switch (s.choose(13)) { case 12: { std::string n = P("throws"), m = s.bytes(6), a; VS rest; ser::gen(s, rest); int how = (int)s.choose(8); encs(a, how, m, rest); encs(r.bytes, n, ver); r.bytes += a; r.key = n + "\n" + a; r.tells = told(how, m); r.last = true; return r; } case 0: case 1: return rawcall(s, P("f0"), ver, (s0 *)0); case 2: return rawcall(s, P("f1"), ver, (s1 *)0); case 3: return rawcall(s, P("f2"), ver, (s2 *)0); case 4: return rawcall(s, P("f3"), ver, (s3 *)0); case 5: return rawcall(s, P("f4"), ver, (s4 *)0); case 6: return rawcall(s, P("f5"), ver, (s5 *)0); case 7: return rawcall(s, P("f8"), ver, (s8 *)0); case 8: return rawcall(s, P("f9"), ver, (s9 *)0);
    case 9: encs(r.bytes, std::string("<<<PING>>>")); encs(r.want, std::string("<<<PONG>>>")); return r;
    case 10: { std::string n = "no " + s.bytes(5); encs(r.bytes, n, ver); encs(r.want, "NotFound " + n); r.last = true; r.early = 4; return r; }
    default: { r = rawcall(s, P("f0"), ver + 1 + (int)s.choose(3), (s0 *)0); r.key = ""; std::string v; int w; memcpy(&w, r.bytes.data() + r.bytes.size() - 4, 4); r.want.clear(); encs(r.want, "VersionMismatch " + std::to_string(ver) + " " + std::to_string(w)); r.last = true; return r; } }
}
static void raw(Src &s, Ctx &c) { tcp = false;   // requests that arrive in pieces, are cut off anywhere, or whose sender leaves: whole requests run once, others never
  { std::lock_guard<std::mutex> l(mu); ran.clear(); } int version = s.coin(1, 4) ? (int)0xAAAAAAAAu /* what this build leaves in variables nobody set */ : (int)s.range(-2, 3), nt = 1 + (int)s.choose(2); rpc::rpc_server sv(version); reg_all(sv); Guard guard{sv, nullptr}; CHECK(sv.start(0, nt), "cannot start"); uint16_t port = sv.port(); std::map<std::string, int> want, may; size_t rounds = 1 + s.choose(3);
  for (size_t q = 0; q < rounds; q++) { std::vector<Raw> v; size_t m = 1 + s.size(5); c.nt(m > 1); std::string all, answers; std::vector<size_t> ends; for (size_t i = 0; i < m; i++) { Raw r = any_raw(s, version); all += r.bytes; ends.push_back(all.size()); v.push_back(r); if (r.last) break; } size_t keep = s.coin(1, 3) ? all.size() : s.coin() ? ends[s.choose(ends.size())] : all.size() - 1 - s.choose(std::min<size_t>(all.size(), ends.size() == 1 ? all.size() : all.size() - ends[ends.size() - 2])); if (s.coin(1, 4)) { size_t i = s.choose(ends.size()), b = i ? ends[i - 1] : 0; keep = b + s.choose(ends[i] - b + 1); }
    size_t whole = 0; std::string got, expect; bool early = s.coin(1, 5); NOTE(v.size() << " requests, " << keep << " of " << all.size() << " bytes sent" << (early ? ", sender leaves" : "")); for (size_t i = 0; i < v.size(); i++) if (ends[i] - v[i].early <= keep) { whole++; expect += v[i].want; if (!v[i].key.empty()) { if (early) may[v[i].key]++; else want[v[i].key]++; } } if (keep < all.size() && (whole ? ends[whole - 1] : 0) < keep) c.label("cut off inside a request");
    int fd = raw_connect(port); Shut sh{fd}; size_t p = 0; while (p < keep) { size_t k = s.coin(1, 3) ? keep - p : 1 + s.choose(keep - p); raw_put(fd, all.substr(p, k)); p += k; } if (early) { c.label("sender leaves"); continue; } ::shutdown(fd, SHUT_WR); got = raw_all(fd);
    if (whole && v[whole - 1].last && !v[whole - 1].key.empty()) { c.label("the function throws"); CHECK(got.size() >= expect.size() + 4, "no answer for a function that throws"); std::string rest = got.substr(expect.size()), e; got.resize(expect.size()); uint32_t n; memcpy(&n, rest.data(), 4); CHECK(rest.size() == 4 + (size_t)n, "the answer for a function that throws is " << show(rest.substr(0, 100))); e = rest.substr(4); CHECK(e != "OK" && e.compare(0, 9, "NotFound ") && e.compare(0, 16, "VersionMismatch ") && e.find(v[whole - 1].tells) != std::string::npos, "a function that throws is answered " << show(e)); }
    CHECK(got == expect, "the answers are " << show(got.substr(0, 200)) << " (" << got.size() << " bytes) instead of " << show(expect.substr(0, 200)) << " (" << expect.size() << " bytes)"); }
  { rpc::rpc_client k("localhost", port, version); Op o = mk(s, P("f1"), (s1 *)0); want[o.key]++; try { o.run(k); } catch (const Fail &) { throw; } catch (const std::exception &e) { FAIL("afterwards a call raises " << e.what()); } } sv.stop(); sv.wait_until_stopped();
  std::lock_guard<std::mutex> l(mu); for (auto &x : want) CHECK(ran[x.first] >= x.second && ran[x.first] <= x.second + (may.count(x.first) ? may[x.first] : 0), show(x.first.substr(0, 40)) << " ran " << ran[x.first] << " times for " << x.second << " requests"); for (auto &x : ran) CHECK(x.second <= (want.count(x.first) ? want[x.first] : 0) + (may.count(x.first) ? may[x.first] : 0), show(x.first.substr(0, 40)) << " ran " << x.second << " times, more often than it was requested");
}
static void far_end(Src &s, Ctx &c) { tcp = false;   // a client whose server is the harness: what comes back decides, and the client works with the next connection
  int ls = __real_socket(AF_UNIX, SOCK_STREAM, 0); Shut sl{ls}; int port = next_port++; sockaddr_un u; socklen_t un = name_of(u, port); if (__real_bind(ls, (sockaddr *)&u, un) || ::listen(ls, 5)) throw Fail("harness: listen"); int ver = (int)s.range(-3, 5); rpc::rpc_client k("127.0.0.1", (uint16_t)port, ver); size_t n = 1 + s.choose(5); c.nt(n > 1); int fd = -1; std::string buf; Shut sf{-1};
  for (size_t t = 0; t < n; t++) { std::string nm = "m" + s.bytes(4), arg = s.bytes(10), res = s.coin(1, 8) ? s.blob(s.edge_len(30000)) : s.bytes(20), code = "OK", told, got, trouble; enum { Val, Named, Versions, Err, NoConn } expect = Val, outcome = Err; int sver = (int)s.range(-5, 9); int kind = (int)s.choose(9); size_t r = s.choose(1000000); std::string pong = "<<<PONG>>>"; bool gone = false;
    switch (kind) { case 0: case 1: case 2: break; case 3: code = "NotFound " + nm; expect = Named; break; case 4: code = "VersionMismatch " + std::to_string(sver) + " " + std::to_string(ver); expect = Versions; break; case 5: code = told = "E" + s.utf8(5, false); expect = Err; break; case 6: case 7: gone = true; expect = Err; break; default: pong = s.coin() ? "<<<PING>>>" : s.bytes(4); expect = NoConn; }
    NOTE("call " << t << ": " << (gone ? "the answer is cut off" : expect == NoConn ? "no proper greeting" : expect == Val ? "a value" : show(code)));
    std::thread th([&] { try { std::string v; int pongs = expect == NoConn ? 2 : 1; for (int i = 0; i < pongs; i++) { for (;;) { if (fd < 0) { fd = __real_accept(ls, nullptr, nullptr); sf.f = fd; buf.clear(); timeval tv = {20, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); } if (raw_string(fd, buf, v)) break; ::close(fd); fd = sf.f = -1; } if (v != "<<<PING>>>") throw Fail("the client greets with " + show(v)); std::string o; encs(o, pong); raw_put(fd, o); if (expect == NoConn) { std::string rest = raw_all(fd); if (!rest.empty()) throw Fail("the client sends " + show(rest) + " though the server did not greet properly"); ::close(fd); fd = sf.f = -1; buf.clear(); } } if (expect == NoConn) return;
        if (!raw_string(fd, buf, v) || v != nm) throw Fail("the request names " + show(v)); if (!raw_need(fd, buf, 4)) throw Fail("no version"); int w; memcpy(&w, buf.data(), 4); buf.erase(0, 4); if (w != ver) throw Fail("the request has version " + std::to_string(w)); if (!raw_string(fd, buf, v) || v != arg) throw Fail("the request's argument is " + show(v)); if (!buf.empty()) throw Fail("more than a request"); std::string o; encs(o, code); if (code == "OK") encs(o, res); if (gone) o.resize(r % o.size()); size_t p = 0; while (p < o.size()) { size_t m = 1 + (r = r * 48271 % 2147483647) % (o.size() - p); raw_put(fd, o.substr(p, m)); p += m; } if (gone || code != "OK") { ::close(fd); fd = sf.f = -1; } } catch (const Fail &f) { trouble = f.msg; if (fd >= 0) ::shutdown(fd, SHUT_RDWR); } });
    struct Join { std::thread &t; ~Join() { if (t.joinable()) t.join(); } } jn{th}; std::string msg; bool other = false; try { got = k.call<s1>(nm)(arg); outcome = Val; } catch (rpc::method_not_found &e) { outcome = Named; msg = e.name(); } catch (rpc::version_mismatch &e) { outcome = Versions; CHECK(e.server_version() == sver && e.client_version() == ver, "versions " << e.server_version() << " and " << e.client_version()); } catch (rpc::cannot_get_connection &) { outcome = NoConn; } catch (rpc::rpc_error &e) { outcome = Err; msg = e.what(); } catch (const std::exception &e) { other = true; msg = e.what(); } th.join(); CHECK(trouble.empty(), trouble); CHECK(!other, "not a remote-call error but " << msg); CHECK(outcome == expect, "the call has outcome " << outcome << " " << show(msg) << " instead of " << expect); if (outcome == Val) CHECK(got == res, "returns " << got.size() << " bytes, the answer had " << res.size() << " (or others)"); if (outcome == Named) CHECK(msg == nm, "names " << show(msg)); if (outcome == Err && !gone) CHECK(msg == std::string(told.c_str()), "tells " << show(msg) << " instead of " << show(told)); c.label(outcome == Val ? "value" : gone ? "cut off" : outcome == NoConn ? "no greeting" : "error"); }
}
static void serv(Src &s, Ctx &c) { tcp = false;   // serv blocks until the server is stopped; a port in use is refused
  { std::lock_guard<std::mutex> l(mu); ran.clear(); } int nt = 1 + (int)s.choose(3); rpc::rpc_server sv(1); reg_all(sv); uint16_t port = (uint16_t)next_port++; std::atomic<int> over{0}; bool ret = false; std::thread t([&] { ret = sv.serv(port, nt); over = 1; }); struct Join { rpc::rpc_server &s; std::thread &t; ~Join() { if (t.joinable()) { s.stop(); t.join(); } } } jn{sv, t}; for (int i = 0; i < 4000 && !sv.is_running(); i++) usleep(500); CHECK(sv.is_running(), "serv does not run"); c.nt(); size_t n = 1 + s.choose(4); std::map<std::string, int> want; NOTE(nt << " threads, " << n << " calls");
  { rpc::rpc_server other(1); bool r = s.coin() ? other.serv(port, 1) : other.start(port, 1); CHECK(!r, "two servers on one port"); CHECK(!other.is_running() && other.is_stopped(), "a server that could not listen runs"); other.stop(); other.wait_until_stopped(); c.label("port in use"); }
  { rpc::rpc_client k("localhost", port, 1); for (size_t i = 0; i < n; i++) { Op o = any_op(s); want[o.key]++; try { o.run(k); } catch (const Fail &) { throw; } catch (const std::exception &e) { FAIL("a call raises " << e.what()); } } } CHECK(!over, "serv returned before the server was stopped"); sv.stop(); t.join(); CHECK(ret, "serv returns false"); CHECK(sv.is_stopped(), "the server has not stopped"); want_ran(want);
}
static std::string blob_of(int n) { return std::string((size_t)n, (char)('a' + n % 26)); }
static void ending(Src &s, Ctx &c) { tcp = false;   // failing accepts; time limits; a server has stopped when its last connection is over
  { std::lock_guard<std::mutex> l(mu); ran.clear(); } int nt = 1 + (int)s.choose(4); double limit = s.coin() ? 0 : s.pick<double>({0.02, 0.05, 0.1, 0.3}); bad_accepts = s.coin() ? (int)s.choose(2 * nt + 1) : 0; struct Zero { ~Zero() { bad_accepts = 0; } } zero; NOTE(nt << " threads, time limit " << limit << ", " << bad_accepts << " accepts fail"); if (bad_accepts) c.label("accepts fail"); rpc::rpc_server sv(1, limit); reg_all(sv); sv.add<std::string(int)>("blob", pfi::lang::function<std::string(int)>(&blob_of)); std::vector<std::unique_ptr<rpc::rpc_client>> cl; Guard guard{sv, [&] { cl.clear(); }}; CHECK(sv.start(0, nt), "cannot start"); uint16_t port = sv.port(); std::map<std::string, int> want; c.nt();
  auto good = [&](rpc::rpc_client &k, const char *when) { Op o = any_op(s, false); want[o.key]++; try { o.run(k); } catch (const Fail &) { throw; } catch (const std::exception &e) { FAIL(when << " a call raises " << e.what()); } };
  if (limit > 0) { // every thread is held by a peer that sends nothing, or takes nothing: after the time limit the server serves again
    std::vector<std::unique_ptr<Shut>> raws; size_t idle = 0; for (int i = 0; i < nt; i++) { int fd = raw_connect(port); raws.emplace_back(new Shut{fd}); int how = (int)s.choose(3); std::string b; if (how == 1) encs(b, std::string("blob"), 1, 3000000); if (how == 2) { encs(b, std::string("blob"), 1, 3); b.resize(b.size() - 1 - s.choose(6)); } NOTE("peer " << i << (how == 1 ? " asks and takes no answer" : how == 2 ? " stops within its request" : " sends nothing")); raw_put(fd, b); if (how != 1) idle++; c.label(how == 1 ? "takes nothing" : "sends nothing"); }
    { rpc::rpc_client k("localhost", port, 1); good(k, "after peers that do nothing"); } for (auto &r : raws) raw_all(r->f); }
  else { size_t n = s.choose(nt + 1); for (size_t i = 0; i < n; i++) { cl.emplace_back(new rpc::rpc_client("localhost", port, 1)); good(*cl.back(), "after failing accepts"); } NOTE(n << " clients stay connected when the server is stopped"); c.label(n ? "clients stay" : "no clients"); sv.stop(); CHECK(!sv.is_running(), "runs after stop"); if (n && s.coin(1, 4)) usleep(2000);
    while (!cl.empty()) { CHECK(sv.is_stopping() && !sv.is_stopped(), "the server is stopped though " << cl.size() << " clients are connected"); if (s.coin(1, 5)) usleep(1000); cl.erase(cl.begin() + s.choose(cl.size())); } }
  if (limit > 0) sv.stop(); sv.wait_until_stopped(); CHECK(sv.is_stopped() && !sv.is_running() && !sv.is_stopping(), "the server has not stopped"); want_ran(want);
}
Suite pbt::suite() {
  Suite u; u.property = "C26";
  u.rule = "Servers with one to four threads and ten functions of zero to nine arguments; one to five client threads run generated call histories (small and large arguments and results, functions that throw, unknown names, other versions, dropped idle connections); executions are counted per argument tuple; servers are stopped (also with clients connected and under load) and started again. Accepts that fail, peers that send or take nothing on servers with a time limit, and servers stopped with idle clients. Non-trivial: more than one client, or a stop under load, or a generated server.";
  u.props = {{"calls", calls, 3000, 60000, false}, {"load", load, 2000, 40000, false}, {"macros", macros, 1000, 10000, false}, {"raw", raw, 2500, 40000, false}, {"far-end", far_end, 2000, 30000, false}, {"serv", serv, 500, 5000, false}, {"ending", ending, 600, 8000, false}, {"tcp", over_tcp, 200, 600, false}};
  u.assumptions = {"the TCP sockets are carried by AF_UNIX sockets except in the sub-property tcp", "interleavings are those of the real threads of the run", "no two clients share one client object"}; u.wall_limit = 40;
  return u;
}
