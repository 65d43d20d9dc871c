// C51: MessagePack remote calls (network/mprpc) over a stand-in for the msgpack library (standin/msgpack.hpp)
#include "ser.h"
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/time.h>
#include <thread>
#include <tuple>
#include <unistd.h>
#include <network/mprpc.h>
using namespace pbt; namespace mp = pfi::network::mprpc;
// The library's TCP sockets, carried by AF_UNIX sockets with names of this process.
static std::atomic<int> next_port{2000}; static std::mutex pm; static std::map<int, int> fd_port;
static socklen_t name_of(sockaddr_un &u, int port) { memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; int n = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "pbt-c51-%d-%d", (int)getpid(), port); return (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + n); }
// transfers on these descriptors are cut short or interrupted at the case's choice; system calls fail at its choice
static Src *cuts; static std::set<int> cutting; static uint64_t shorts, eintrs; static thread_local Src *faults; static std::string failed; static int tcp_option = -1;
static bool many; static bool fault(const char *call) { if (!faults || (!failed.empty() && !many) || !faults->coin(1, many ? 3 : 8)) return false; failed = call; return true; }
extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const sockaddr *, socklen_t); int __real_connect(int, const sockaddr *, socklen_t); int __real_accept(int, sockaddr *, socklen_t *); int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_listen(int, int); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
int __wrap_socket(int d, int t, int p) { if (fault("socket")) { errno = EMFILE; return -1; } return __real_socket(d == AF_INET ? AF_UNIX : d, t, p); }
int __wrap_bind(int fd, const sockaddr *a, socklen_t n) { if (fault("bind")) { errno = EADDRINUSE; return -1; } int port = ntohs(((const sockaddr_in *)a)->sin_port); if (!port) port = next_port++; sockaddr_un u; n = name_of(u, port); return __real_bind(fd, (sockaddr *)&u, n); }
int __wrap_listen(int fd, int b) { if (fault("listen")) { errno = EADDRINUSE; return -1; } return __real_listen(fd, b); }
int __wrap_connect(int fd, const sockaddr *a, socklen_t n) { if (a->sa_family != AF_INET) return __real_connect(fd, a, n); if (fault("connect")) { errno = ECONNREFUSED; return -1; } sockaddr_un u; n = name_of(u, ntohs(((const sockaddr_in *)a)->sin_port)); return __real_connect(fd, (sockaddr *)&u, n); }
int __wrap_accept(int fd, sockaddr *a, socklen_t *n) { return __real_accept(fd, nullptr, nullptr); }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { if (fault("setsockopt")) { errno = EINVAL; return -1; } if (l == IPPROTO_TCP) { if (o == TCP_NODELAY) tcp_option = *(const int *)v; return 0; } if (l == SOL_SOCKET && o == TCP_DEFER_ACCEPT) return 0; return __real_setsockopt(fd, l, o, v, n); }
}
static bool cut(int fd, size_t &n) { if (!cuts || !cutting.count(fd)) return false; if (cuts->coin(1, 8)) { eintrs++; errno = EINTR; return true; } if (n > 1 && cuts->coin(1, 2)) { shorts++; n = 1 + cuts->choose(n); } return false; }
static bool dry(int fd) { if (!cuts || !cutting.count(fd)) return false; struct pollfd q = {fd, POLLIN, 0}; return ::poll(&q, 1, 0) == 0; }
extern "C" {
ssize_t __wrap_read(int fd, void *p, size_t n) { if (cut(fd, n)) return -1; if (dry(fd)) throw Fail("waits for bytes that were never sent"); return __real_read(fd, p, n); }
ssize_t __wrap_recv(int fd, void *p, size_t n, int fl) { if (cut(fd, n)) return -1; if (dry(fd)) throw Fail("waits for bytes that were never sent"); return __real_recv(fd, p, n, fl); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { if (cut(fd, n)) return -1; return __real_write(fd, p, n); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int fl) { if (cut(fd, n)) return -1; return __real_send(fd, p, n, fl); }
}
static std::set<int> descriptors() { std::set<int> r; DIR *d = opendir("/proc/self/fd"); if (!d) throw Fail("harness: /proc/self/fd"); while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') r.insert(atoi(e->d_name)); r.erase(dirfd(d)); closedir(d); return r; }
struct Clean { ~Clean() { many = false; cuts = nullptr; faults = nullptr; cutting.clear(); } };
// ---- an independent writer and reader of MessagePack, for the far end ----
struct V { int k = 0; bool b = false; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s; std::vector<V> a; static V of(uint64_t x) { V v; v.k = 2; v.u = x; return v; } static V str(const std::string &x) { V v; v.k = 5; v.s = x; return v; } static V arr(std::vector<V> x) { V v; v.k = 6; v.a = std::move(x); return v; } static V nil() { return V(); } };
static std::string be(uint64_t v, int n) { std::string r; for (int i = n - 1; i >= 0; i--) r += (char)(v >> (8 * i)); return r; }
static std::string text(const V &v) { std::ostringstream o; switch (v.k) { case 0: return "nil"; case 1: return v.b ? "true" : "false"; case 2: o << v.u; return o.str(); case 3: o << v.i; return o.str(); case 4: o << v.d; return o.str(); case 5: return '"' + v.s + '"'; default: { std::string r = "["; for (size_t i = 0; i < v.a.size(); i++) r += (i ? ", " : "") + text(v.a[i]); return r + "]"; } } }
static std::string put(const V &v, Src &s) {   // any of the encodings of the value
  switch (v.k) {
    case 0: return "\xc0"; case 1: return v.b ? "\xc3" : "\xc2"; case 4: { uint64_t u; memcpy(&u, &v.d, 8); return "\xcb" + be(u, 8); }
    case 2: { size_t m = v.u < 128 ? 0 : v.u < 256 ? 1 : v.u < 65536 ? 2 : v.u < 4294967296ull ? 3 : 4; size_t w = s.coin(3, 4) ? m : m + s.choose(5 - m); return w == 0 ? be(v.u, 1) : std::string(1, (char)(0xcb + w)) + be(v.u, 1 << (w - 1)); }
    case 3: return v.i >= -32 ? be((uint64_t)v.i, 1) : v.i >= -128 ? "\xd0" + be((uint64_t)v.i, 1) : v.i >= -32768 ? "\xd1" + be((uint64_t)v.i, 2) : v.i >= -2147483648ll ? "\xd2" + be((uint64_t)v.i, 4) : "\xd3" + be((uint64_t)v.i, 8);
    case 5: return (v.s.size() < 32 && s.coin(3, 4) ? be(0xa0 | v.s.size(), 1) : v.s.size() < 65536 && s.coin(3, 4) ? "\xda" + be(v.s.size(), 2) : "\xdb" + be(v.s.size(), 4)) + v.s;
    default: { std::string r = v.a.size() < 16 && s.coin(3, 4) ? be(0x90 | v.a.size(), 1) : "\xdc" + be(v.a.size(), 2); for (auto &x : v.a) r += put(x, s); return r; }
  }
}
struct In { const std::string &t; size_t p = 0; bool more = false;   // more: the text ends inside the value
  uint64_t num(int n) { if (t.size() - p < (size_t)n) { more = true; throw Fail("end"); } uint64_t v = 0; while (n--) v = v << 8 | (unsigned char)t[p++]; return v; }
  V raw(uint64_t n) { if (t.size() - p < n) { more = true; throw Fail("end"); } V v = V::str(t.substr(p, n)); p += n; return v; }
  V arr(uint64_t n) { V v = V::arr({}); for (uint64_t i = 0; i < n; i++) v.a.push_back(get()); return v; }
  V sg(int64_t x) { V v; if (x >= 0) return V::of((uint64_t)x); v.k = 3; v.i = x; return v; }
  V get() { unsigned c = (unsigned)num(1); if (c < 0x80) return V::of(c); if (c >= 0xe0) return sg((int8_t)c); if (c >= 0x90 && c < 0xa0) return arr(c & 15); if (c >= 0xa0 && c < 0xc0) return raw(c & 31); V v; switch (c) { case 0xc0: return v; case 0xc2: case 0xc3: v.k = 1; v.b = c == 0xc3; return v; case 0xcb: { uint64_t u = num(8); v.k = 4; memcpy(&v.d, &u, 8); return v; } case 0xcc: return V::of(num(1)); case 0xcd: return V::of(num(2)); case 0xce: return V::of(num(4)); case 0xcf: return V::of(num(8)); case 0xd0: return sg((int8_t)num(1)); case 0xd1: return sg((int16_t)num(2)); case 0xd2: return sg((int32_t)num(4)); case 0xd3: return sg((int64_t)num(8)); case 0xda: return raw(num(2)); case 0xdb: return raw(num(4)); case 0xdc: return arr(num(2)); case 0xdd: return arr(num(4)); } throw Fail("the library sent a byte that starts no expected value: " + std::to_string(c)); } };
// ---- functions: results are a function of name and arguments, executions are counted ----
static std::mutex mu; static std::map<std::string, int> ran;
static void log(const std::string &k) { std::lock_guard<std::mutex> l(mu); ran[k]++; }
static uint64_t hash(const std::string &k) { uint64_t h = 1469598103934665603ull; for (unsigned char x : k) h = (h ^ x) * 1099511628211ull; return h; }
static void big(std::string &v, const std::string &k) { if (hash(k) % 7 == 0) v.assign(hash(k) % 30000, (char)hash(k)); }
template <class R> static void big(R &, const std::string &) {}
template <class R> static R answer(const std::string &k) { Src s; s.seed(hash(k)); R r; ser::gen(s, r); big(r, k); return r; }
inline void encs(std::string &) {}
template <class A, class... B> static void encs(std::string &o, const A &a, const B &...b) { ser::enc(o, a); encs(o, b...); }
struct Op { std::string key, what; std::function<void(mp::rpc_client &)> run; };
template <size_t... I> struct seq {}; template <size_t N, size_t... I> struct mkseq : mkseq<N - 1, N - 1, I...> {}; template <size_t... I> struct mkseq<0, I...> { typedef seq<I...> type; };
template <class R, class T, class F, size_t... I> static R apply(F &f, const T &t, seq<I...>) { return f(std::get<I>(t)...); }
template <class T, size_t... I> static std::string key(const std::string &n, const T &t, seq<I...>) { std::string k = n + "\n"; encs(k, std::get<I>(t)...); return k; }
template <size_t I, class T> struct genall { static void go(Src &s, T &t) { genall<I - 1, T>::go(s, t); ser::gen(s, std::get<I - 1>(t)); } }; template <class T> struct genall<0, T> { static void go(Src &, T &) {} };
inline void stretch(Src &s, std::string &v) { if (s.coin(1, 6)) v = s.blob(s.edge_len(40000)); }
template <class T> static void stretch(Src &s, std::vector<T> &v) { if (s.coin(1, 10) && v.size()) v.resize(s.edge_len(3000), v[0]); }
template <class T> static void stretch(Src &, T &) {}
template <class R, class... A> static Op op(Src &s, const std::string &name) {
  typedef std::tuple<A...> T; typedef typename mkseq<sizeof...(A)>::type S; auto t = std::make_shared<T>(); genall<sizeof...(A), T>::go(s, *t); stretch(s, std::get<0>(*t)); std::string k = key(name, *t, S());
  return Op{k, name + "(" + std::to_string(k.size()) + " bytes)", [=](mp::rpc_client &c) { pfi::lang::function<R(A...)> f = c.call<R(A...)>(name); R r = apply<R>(f, *t, S()); if (!(r == answer<R>(k))) throw Fail(name + " returned another value than the function"); }};
}
typedef std::vector<std::string> VS; typedef std::map<std::string, int> MI; typedef std::set<long> SL; typedef std::pair<int, std::string> PI; typedef std::vector<unsigned char> VC;
typedef int s0(); typedef std::string s1(std::string); typedef int s2(int, std::string); typedef VS s3(VS, bool, MI); typedef PI s4(MI, int, VS, PI); typedef MI s5(std::string, std::string, double, SL, int); typedef SL s6(int, unsigned, long, short, int, unsigned char); typedef VC s7(VC, int, std::string, VS, bool, unsigned char, long); typedef bool s8(std::string, int, VS, MI, SL, PI, double, int); typedef std::string s9(int, std::string, int, std::string, VS, MI, bool, PI, std::string);
template <class R, class... A> static void reg(mp::rpc_server &s, const std::string &n, R (*)(A...)) { s.add<R(A...)>(n, pfi::lang::function<R(A...)>([n](A... a) { std::string k = n + "\n"; encs(k, a...); log(k); return answer<R>(k); })); }
template <class R, class... A> static Op mk(Src &s, const std::string &n, R (*)(A...)) { return op<R, A...>(s, n); }
static Op mk(Src &, const std::string &n, int (*)()) { std::string k = n + "\n"; return Op{k, n + "()", [=](mp::rpc_client &c) { int r = c.call<int()>(n)(); if (r != answer<int>(k)) throw Fail(n + " returned another value than the function"); }}; }
static Op any_op(Src &s) { switch (s.choose(11)) { case 0: return mk(s, "f0", (s0 *)0); case 1: case 10: return mk(s, "f1", (s1 *)0); case 2: return mk(s, "f2", (s2 *)0); case 3: return mk(s, "f3", (s3 *)0); case 4: return mk(s, "f4", (s4 *)0); case 5: return mk(s, "f5", (s5 *)0); case 6: return mk(s, "f6", (s6 *)0); case 7: return mk(s, "f7", (s7 *)0); case 8: return mk(s, "f8", (s8 *)0); default: return mk(s, "f9", (s9 *)0); } }
struct Oops : std::runtime_error { using std::runtime_error::runtime_error; };
// a function may fail for a reason of its own, or because a remote call it made failed
[[noreturn]] static void raise(const std::string &x) { switch (hash(x) % 8) { case 0: throw mp::rpc_error(x); case 1: throw mp::rpc_io_error(x, ECONNREFUSED); case 2: throw mp::rpc_type_error(x); case 3: throw mp::rpc_timeout_error(x); case 4: throw std::out_of_range(x); default: throw Oops(x); } }
static std::string raised(const std::string &x) { try { raise(x); } catch (const std::exception &e) { return e.what(); } }
static void reg_all(mp::rpc_server &s) {
  reg(s, "f0", (s0 *)0); reg(s, "f1", (s1 *)0); reg(s, "f2", (s2 *)0); reg(s, "f3", (s3 *)0); reg(s, "f4", (s4 *)0); reg(s, "f5", (s5 *)0); reg(s, "f6", (s6 *)0); reg(s, "f7", (s7 *)0); reg(s, "f8", (s8 *)0); reg(s, "f9", (s9 *)0);
  s.add<std::string(std::string)>("echo", pfi::lang::function<std::string(std::string)>([](std::string x) { log("echo\n" + x); return x; }));
  s.add<int(std::string)>("throws", pfi::lang::function<int(std::string)>([](std::string x) -> int { log("throws\n" + x); raise(x); }));
  s.add<std::string(int)>("much", pfi::lang::function<std::string(int)>([](int n) { log("much\n" + std::to_string(n)); return std::string((size_t)n, 'm'); }));
  s.add<int(int, int, int)>("sum", pfi::lang::function<int(int, int, int)>([](int a, int b, int c) { log("sum\n"); return (int)((unsigned)a + (unsigned)b * 3 + (unsigned)c * 7); }));
}
static Op error_op(Src &s) {
  switch (s.choose(4)) {
    case 0: { std::string n = s.pick<std::string>({"f10", "F1", "f", "g", "f1 ", "no such method", "", "a\tb", "f1\n"}); if (s.coin(1, 4)) n = "x" + s.bytes(6); std::string arg = s.coin(1, 4) ? s.blob(s.edge_len(60000)) : s.bytes(8); return Op{"", "unknown " + show(n), [=](mp::rpc_client &c) { try { c.call<s1>(n)(arg); } catch (mp::method_not_found &e) { if (e.name() != n) throw Fail("method_not_found names " + show(e.name()) + ", not " + show(n)); return; } catch (const std::exception &e) { throw Fail("an unknown method raises " + std::string(e.what())); } throw Fail("an unknown method returned"); }}; }
    case 1: { int which = (int)s.choose(3); return Op{"", "arguments of another type", [=](mp::rpc_client &c) { try { if (which == 0) c.call<int(int)>("f1")(5); else if (which == 1) c.call<int(std::string, std::string)>("f2")("a", "b"); else c.call<VS(VS, int, MI)>("f3")(VS(), 1, MI()); } catch (mp::rpc_type_error &) { return; } catch (const std::exception &e) { throw Fail("arguments of another type raise " + std::string(e.what())); } throw Fail("arguments of another type were accepted"); }}; }
    case 2: { std::string a = s.bytes(8); return Op{"echo\n" + a, "a result of another type", [=](mp::rpc_client &c) { try { c.call<int(std::string)>("echo")(a); } catch (mp::rpc_type_error &) { return; } catch (const std::exception &e) { throw Fail("a result of another type raises " + std::string(e.what())); } throw Fail("a result of another type was accepted"); }}; }
    default: { std::string a = s.utf8(8, false); return Op{"throws\n" + a, "a function that throws " + show(a), [=](mp::rpc_client &c) { try { c.call<int(std::string)>("throws")(a); } catch (mp::rpc_error &e) { if (e.what() != raised(a)) throw Fail("a function that throws " + show(raised(a)) + " raises " + show(e.what())); return; } catch (const std::exception &e) { throw Fail(std::string("raises ") + e.what()); } throw Fail("a function that throws returned"); }}; }
  }
}
struct Bag { std::mutex m; std::string err; void fail(const std::string &e) { std::lock_guard<std::mutex> l(m); if (err.empty()) err = e; } };
static void want_ran(const std::map<std::string, int> &want) { std::lock_guard<std::mutex> l(mu); for (auto &x : want) { int n = ran.count(x.first) ? ran[x.first] : 0; CHECK(n == x.second, show(x.first.substr(0, 40)) << " ran " << n << " times for " << x.second << " calls"); } CHECK(ran.size() == want.size(), "a function ran with arguments nobody sent"); }
struct Guard { mp::rpc_server &s; std::function<void()> f; ~Guard() { if (f) f(); s.stop(); s.join(); } };
static int raw_connect(int port) { int fd = __real_socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un u; socklen_t n = name_of(u, port); if (__real_connect(fd, (sockaddr *)&u, n)) { ::close(fd); throw Fail("cannot connect to the server"); } struct timeval tv = {20, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); return fd; }
static void raw_put(int fd, const std::string &s) { size_t p = 0; while (p < s.size()) { ssize_t r = __real_send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL); if (r <= 0) return; p += (size_t)r; } }
static bool raw_value(int fd, std::string &buf, V &v) { for (;;) { In in{buf}; try { v = in.get(); buf.erase(0, in.p); return true; } catch (Fail &) { if (!in.more) throw; } char b[65536]; ssize_t r = __real_recv(fd, b, sizeof b, 0); if (r < 0) throw Fail("no answer within 20 s"); if (r == 0) return false; buf.append(b, (size_t)r); } }
static V val(Src &s, int d) { V v; v.k = (int)s.choose(d ? 7 : 6); v.b = s.coin(); v.u = s.uedge(64); v.i = -(int64_t)(s.uedge(62)) - 1; v.d = s.finite(); if (v.k == 5) v.s = s.bytes(s.coin(1, 10) ? 300 : 8); if (v.k == 6) { size_t n = s.choose(5); for (size_t i = 0; i < n; i++) v.a.push_back(val(s, d - 1)); } return v; }
// what a server must answer to one message, or nothing
struct Reply { bool any = false; uint32_t id = 0; std::function<std::string(const V &)> judge; };
static uint16_t fresh_port() { return (uint16_t)(1 + next_port++ % 60000); }
static void serve(Src &s, Ctx &c) {   // well-behaved clients and raw connections that send anything, on one server
  Clean cl; { std::lock_guard<std::mutex> l(mu); ran.clear(); } std::set<int> before = descriptors(); int nt = 1 + (int)s.choose(3); std::map<std::string, int> want; size_t rounds = 1 + s.choose(2);
  { mp::rpc_server sv(s.coin(1, 3) ? 20.0 : 0.0); reg_all(sv); CHECK(!sv.running(), "a new server runs"); CHECK(!sv.run(1, false), "a server without a socket runs"); uint16_t port = fresh_port(); std::vector<std::unique_ptr<mp::rpc_client>> cs((size_t)nt); Guard guard{sv, [&] { cs.clear(); }};
    for (size_t r = 0; r < rounds; r++) {
      if (s.coin(1, 3)) { CHECK(sv.create(fresh_port()), "create"); } CHECK(sv.create(port), "cannot listen"); CHECK(sv.run(nt, false), "cannot run"); CHECK(sv.running(), "not running"); if (s.coin(1, 4)) CHECK(!sv.run(1, false), "runs twice"); if (r) c.label("started again");
      size_t n = 1 + s.size(12); c.nt(n > 2);
      for (size_t t = 0; t < n; t++) {
        size_t i = s.choose((size_t)nt);
        switch (s.choose(5)) {
          case 0: case 1: { Op o = s.coin(1, 3) ? error_op(s) : any_op(s); NOTE("client " << i << ": " << o.what); if (!cs[i]) cs[i].reset(new mp::rpc_client("127.0.0.1", port, s.coin() ? 0 : 20)); if (!o.key.empty()) want[o.key]++; try { o.run(*cs[i]); } catch (const Fail &) { throw; } catch (const std::exception &e) { FAIL(o.what << " raises " << e.what()); } break; }
          case 2: NOTE("client " << i << " goes"); cs[i].reset(); break;
          default: { cs[i].reset(); int fd = raw_connect(port); struct Shut { int f; ~Shut() { ::close(f); } } shut{fd}; size_t m = 1 + s.choose(4); std::string bytes; std::vector<Reply> replies; bool broken = false; 
            for (size_t q = 0; q < m && !broken; q++) { uint32_t id = (uint32_t)s.uedge(32); Reply rp; rp.any = true; rp.id = id; auto bare = [](const V &v) { return text(v); };
              switch (s.choose(8)) {
                case 0: case 1: { std::string a = s.coin(1, 8) ? s.blob(s.edge_len(20000)) : s.bytes(20); V req = V::arr({V::of(0), V::of(id), V::str("echo"), V::arr({V::str(a)})}); if (s.coin(1, 4)) req.a.push_back(val(s, 1)); if (s.coin(1, 4)) req.a[3].a.push_back(val(s, 1)); bytes += put(req, s); want["echo\n" + a]++; NOTE("raw: echo of " << a.size() << " bytes"); rp.judge = [a](const V &v) { return v.a[2].k == 0 && v.a[3].k == 5 && v.a[3].s == a ? "" : "echo is answered with " + show(text(v)); }; break; }
                case 2: { std::string nm = "no" + s.bytes(5); bytes += put(V::arr({V::of(0), V::of(id), V::str(nm), val(s, 2)}), s); NOTE("raw: unknown method"); rp.judge = [nm](const V &v) { return v.a[2].k == 2 && v.a[2].u == mp::METHOD_NOT_FOUND && v.a[3].k == 5 && v.a[3].s == nm ? "" : "an unknown method is answered with " + show(text(v)); }; break; }
                case 3: { V bad = s.coin() ? V::arr({V::of(5)}) : V::str("x"); bytes += put(V::arr({V::of(0), V::of(id), V::str("echo"), bad}), s); NOTE("raw: bad arguments"); rp.judge = [](const V &v) { return v.a[2].k == 2 && v.a[2].u == mp::TYPE_MISMATCH ? "" : "arguments of another type are answered with " + show(text(v)); }; break; }
                case 4: { std::vector<V> a; size_t k = s.choose(4); long sum = 0; int w[] = {1, 3, 7}; unsigned u = 0; for (size_t z = 0; z < k; z++) { unsigned x = (unsigned)s.choose(1000); a.push_back(V::of(x)); if (z < 3) u += x * w[z]; } (void)sum; bytes += put(V::arr({V::of(0), V::of(id), V::str("sum"), V::arr(a)}), s); NOTE("raw: sum of " << k << " numbers"); if (k < 3) c.label("too few arguments"); want["sum\n"]++; std::string refuse = k < 3 ? "y" : "n"; rp.judge = [u, k](const V &v) -> std::string { if (v.a[2].k == 0 && ((v.a[3].k == 2 && v.a[3].u == u) || (v.a[3].k == 3 && (unsigned)v.a[3].i == u))) return ""; if (k < 3 && v.a[2].k == 2 && v.a[2].u == mp::TYPE_MISMATCH) { std::lock_guard<std::mutex> l(mu); ran["sum\n"]++; return ""; } return "the sum of " + std::to_string(k) + " of 3 arguments, " + std::to_string(u) + ", is answered with " + text(v); }; break; }
                case 5: bytes += put(V::arr({V::of(1), V::of(id), V::nil(), val(s, 1)}), s); NOTE("raw: an answer nobody asked for"); rp.any = false; break;
                case 6: { V v = s.coin() ? val(s, 2) : V::arr({V::of(s.choose(3)), val(s, 1), val(s, 1), val(s, 1)}); bool other = v.k == 6 && v.a.size() >= 4 && v.a[0].k == 2 && v.a[0].u && v.a[0].u < 256 && v.a[1].k == 2 && v.a[1].u <= 0xffffffffull; if (v.k == 6 && v.a.size() >= 4 && v.a[0].k == 2 && v.a[0].u == 0 && v.a[1].k == 2 && v.a[1].u <= 0xffffffffull && v.a[2].k == 5) v.a[2] = V::of(7); NOTE("raw: not a message: " << show(text(v))); bytes += put(v, s); rp.any = false; broken = !other; c.label("not a message"); break; }
                default: NOTE("raw: bytes that are no value"); bytes += s.pick<std::string>({"\xc1", "\x94\xc1", "\x91\xc4", "\xd4\xd5"}); rp.any = false; broken = true; c.label("not a value"); }
              (void)bare; if (rp.any) replies.push_back(rp); }
            bool early = s.coin(1, 4); if (early && !broken) { int k = (int)s.edge_len(400000); NOTE("raw: leaves before the answer of " << k << " bytes"); std::string rq = put(V::arr({V::of(0), V::of(1), V::str("much"), V::arr({V::of((uint64_t)k)})}), s); int fd2 = raw_connect(port); if (nt == 1) { ::close(fd2); early = false; } else { raw_put(fd2, rq); if (s.coin()) ::usleep(200); ::close(fd2); want["much\n" + std::to_string(k)]++; c.label("left early"); } }
            size_t p = 0; while (p < bytes.size()) { size_t k = s.coin(1, 3) ? bytes.size() - p : 1 + s.choose(bytes.size() - p); raw_put(fd, bytes.substr(p, k)); p += k; } if (broken && s.coin()) ::shutdown(fd, SHUT_WR);
            std::string buf; for (auto &rp : replies) { V v; if (!raw_value(fd, buf, v)) FAIL("the server closed the connection instead of answering"); CHECK(v.k == 6 && v.a.size() == 4 && v.a[0].k == 2 && v.a[0].u == 1 && v.a[1].k == 2, "the answer is not a response: " << show(text(v))); CHECK(v.a[1].u == rp.id, "the answer carries id " << v.a[1].u << ", the request " << rp.id); std::string e = rp.judge(v); CHECK(e.empty(), e); }
            if (!broken) { ::shutdown(fd, SHUT_WR); V v; CHECK(!raw_value(fd, buf, v) && buf.empty(), "an answer nobody asked for: " << show(text(v))); } c.label("raw connection"); } }
      }
      NOTE("stop"); cs.clear(); cs.resize((size_t)nt); for (int k = 0; k < 200; k++) { bool all = true; { std::lock_guard<std::mutex> l(mu); for (auto &x : want) all &= ran.count(x.first) && ran[x.first] >= x.second; } if (all) break; ::usleep(k < 20 ? 200 : 10000); }
      sv.stop(); CHECK(!sv.running(), "a stopped server runs"); sv.join(); mp::rpc_client late("127.0.0.1", port, 1); try { late.call<s0>("f0")(); FAIL("a call to a stopped server returned"); } catch (const mp::rpc_error &) {} want_ran(want); port = fresh_port();
    } }
  std::set<int> after = descriptors(); CHECK(after == before, "descriptors left open: " << (long)after.size() - (long)before.size());
}
static void clients(Src &s, Ctx &c) {   // several clients at once
  Clean cl; { std::lock_guard<std::mutex> l(mu); ran.clear(); } int nt = 1 + (int)s.choose(4); mp::rpc_server sv(0); reg_all(sv); uint16_t port = fresh_port(); bool made = s.coin(); if (made) CHECK(sv.create(port), "create"); std::thread *st = nullptr; if (made) { CHECK(sv.run(nt, false), "run"); } else { st = new std::thread([&] { sv.serv(port, nt); }); for (int i = 0; i < 2000 && !sv.running(); i++) ::usleep(500); CHECK(sv.running(), "serv does not run"); } struct End { mp::rpc_server &s; std::thread *t; ~End() { s.stop(); if (t) { t->join(); delete t; } else s.join(); } } end{sv, st};
  size_t nc = 1 + s.choose((size_t)nt); c.nt(nc > 1); std::vector<std::vector<Op>> plan(nc); std::map<std::string, int> want; for (size_t i = 0; i < nc; i++) { size_t n = 1 + s.size(8); for (size_t k = 0; k < n; k++) { Op o = s.coin(1, 5) ? error_op(s) : any_op(s); NOTE("client " << i << ": " << o.what); if (!o.key.empty()) want[o.key]++; plan[i].push_back(o); } }
  Bag bag; { std::vector<std::thread> th; for (size_t i = 0; i < nc; i++) th.emplace_back([&, i] { mp::rpc_client k("127.0.0.1", port, 20); for (auto &o : plan[i]) { try { o.run(k); } catch (const Fail &f) { bag.fail(f.msg); } catch (const std::exception &e) { bag.fail(o.what + " raises " + e.what()); } } }); for (auto &t : th) t.join(); } CHECK(bag.err.empty(), bag.err); want_ran(want);
}
static void far_end(Src &s, Ctx &c) {   // a client whose server is the harness: what comes back decides
  Clean cl; std::set<int> before = descriptors(); { int ls = __real_socket(AF_UNIX, SOCK_STREAM, 0); struct Shut { int f; ~Shut() { if (f >= 0) ::close(f); } } sl{ls}; uint16_t port = fresh_port(); sockaddr_un u; socklen_t un = name_of(u, port); if (__real_bind(ls, (sockaddr *)&u, un) || __real_listen(ls, 5)) throw Fail("harness: listen"); mp::rpc_client k("127.0.0.1", port, 20); 
  size_t n = 1 + s.choose(5); c.nt(n > 1); uint32_t last = 0; bool first = true; int fd = -1; Shut sf{-1}; std::string buf;
  for (size_t t = 0; t < n; t++) {
    std::string arg = s.bytes(12), nm = "m" + s.bytes(4), what, res = s.coin(1, 8) ? s.blob(s.edge_len(30000)) : s.bytes(20), out; bool gone = false; int kind = (int)s.choose(9); enum { Val, Type, Named, Err, Closed } expect = Val; std::string told;
    // the client's request is answered by a helper thread, so that the call can block
    std::string trouble; V reqv; std::vector<std::string> before_it; size_t extra = s.choose(3); for (size_t i = 0; i < extra; i++) { switch (s.choose(3)) { case 0: before_it.push_back("req"); break; case 1: before_it.push_back("other"); break; default: before_it.push_back("old"); } } V ev = V::nil(), rv = V::str(res);
    switch (kind) { case 0: case 1: case 2: break; case 3: rv = s.coin() ? V::of(3) : V::nil(); expect = Type; break; case 4: ev = V::of(mp::METHOD_NOT_FOUND); rv = V::str(nm); expect = Named; break; case 5: ev = V::of(mp::TYPE_MISMATCH); rv = val(s, 1); expect = Type; break; case 6: ev = V::str(s.utf8(6, false)); told = ev.s; rv = val(s, 1); expect = Err; break; case 7: ev = V::of(3 + s.choose(100)); told = text(ev); rv = val(s, 1); expect = Err; break; default: gone = true; expect = Closed; }
    size_t cutat = s.choose(1000000); NOTE("call " << t << ": the answer is " << (gone ? "cut off" : expect == Val ? "a string" : "error " + text(ev) + " result " + show(text(rv))) << " after " << extra << " other messages"); std::string pre; std::thread th([&] { try { if (fd < 0) { fd = __real_accept(ls, nullptr, nullptr); sf.f = fd; struct timeval tv = {20, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); } if (!raw_value(fd, buf, reqv)) throw Fail("the client closed the connection"); if (!(reqv.k == 6 && reqv.a.size() == 4 && reqv.a[0].k == 2 && reqv.a[0].u == 0 && reqv.a[1].k == 2 && reqv.a[2].k == 5 && reqv.a[2].s == nm && reqv.a[3].k == 6 && reqv.a[3].a.size() == 1 && reqv.a[3].a[0].k == 5 && reqv.a[3].a[0].s == arg)) throw Fail("the request is " + show(text(reqv))); uint32_t id = (uint32_t)reqv.a[1].u; if (!first && id == last) throw Fail("two requests carry the same id");
        Src q; q.seed(cutat); for (auto &b : before_it) out += b == "req" ? put(V::arr({V::of(0), V::of(id), V::str("x"), V::arr({})}), q) : b == "other" ? put(V::arr({V::of(1), V::of((uint32_t)(cutat & 1 ? id ^ 1u << cutat / 2 % 32 : id + 1 + cutat % 7)), V::nil(), V::str("wrong")}), q) : first ? "" : put(V::arr({V::of(1), V::of(last), V::nil(), V::str("old")}), q); std::string a = put(V::arr({V::of(1), V::of(id), ev, rv}), q); if (gone) a = a.substr(0, cutat % a.size()); out += a; last = id; first = false; size_t p = 0, parts = 1 + cutat % 3; for (size_t i = 0; i < parts; i++) { size_t m = i + 1 == parts ? out.size() - p : (out.size() - p) / 2; raw_put(fd, out.substr(p, m)); p += m; } if (gone) { ::shutdown(fd, SHUT_RDWR); } } catch (const Fail &f) { trouble = f.msg; if (fd >= 0) ::shutdown(fd, SHUT_RDWR); } });
    struct Join { std::thread &t; ~Join() { if (t.joinable()) t.join(); } } jn{th}; std::string got; int outcome = -1; std::string msg; try { got = k.call<s1>(nm)(arg); outcome = Val; } catch (mp::method_not_found &e) { outcome = Named; msg = e.name(); } catch (mp::rpc_type_error &e) { outcome = Type; } catch (mp::rpc_error &e) { outcome = Err; msg = e.what(); } catch (const std::exception &e) { outcome = -2; msg = e.what(); } th.join(); CHECK(trouble.empty(), trouble);
    CHECK(outcome != -2, "not a remote-call error but " << msg); if (expect == Closed) { CHECK(outcome == Err, "a connection that ends inside the answer gives outcome " << outcome); c.label("cut off"); break; } CHECK(outcome == expect, "the call has outcome " << outcome << " " << show(msg) << " instead of " << expect); if (expect == Val) CHECK(got == res, "returns " << show(got) << ", the answer was " << show(res)); if (expect == Named) CHECK(msg == nm, "names " << show(msg)); if (expect == Err) CHECK(msg == std::string(told.c_str()), "tells " << show(msg) << ", the error was " << show(told)); c.label(expect == Val ? "value" : "error");
  } }
  CHECK(descriptors() == before, "a descriptor is left open");
}
static void streams(Src &s, Ctx &c) {   // two message streams over one connection, every transfer cut or interrupted
  Clean cl; std::set<int> before = descriptors(); shorts = eintrs = 0; { int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) throw Fail("socketpair"); int big = 400000; __real_setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); __real_setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); std::unique_ptr<mp::rpc_stream> a(new mp::rpc_stream(sv[0], 0)), b(new mp::rpc_stream(sv[1], 0)); cutting = {sv[0], sv[1]}; cuts = &s; struct Rq { uint32_t id; std::string name; std::string arg; }; std::deque<Rq> sent; struct Rs { uint32_t id; bool err; std::string v; }; std::deque<Rs> back; std::vector<Rq> held; std::set<uint32_t> ids; size_t n = 2 + s.size(20), out = 0; c.nt(n > 4); bool closed = false;
    for (size_t t = 0; t < n; t++) switch (s.choose(4)) {
      case 0: { if (out > 60000) break; Rq q; q.name = s.bytes(6); q.arg = s.coin(1, 5) ? s.blob(s.edge_len(20000)) : s.bytes(20); out += q.arg.size() + 40; NOTE("send, " << q.arg.size() << " bytes"); CHECK(a->send(q.name, mp::argument1<std::string>(q.arg), &q.id), "send fails"); CHECK(ids.insert(q.id).second, "an id is used twice"); sent.push_back(q); break; }
      case 1: { if (sent.empty()) break; NOTE("receive"); mp::rpc_message m; CHECK(b->receive(&m), "receive fails"); Rq q = sent.front(); sent.pop_front(); CHECK(m.is_request() && !m.is_response() && m.msgid() == q.id, "another message than the one sent: id " << m.msgid()); mp::rpc_request r(m); mp::argument1<std::string> g; CHECK(r.method == q.name && r.msgid == q.id && r.param_as(&g) && g.a1 == q.arg, "another request than the one sent"); mp::argument1<int> no; CHECK(!r.param_as(&no), "a string passes for a number"); held.push_back(q); break; }
      case 2: { if (held.empty()) break; size_t i = s.choose(held.size()); Rs r; r.id = held[i].id; r.err = s.coin(1, 4); r.v = held[i].arg + "!"; NOTE("answer"); bool ok = r.err ? b->send_response(r.id, msgpack::type::nil(), r.v) : b->send_response(r.id, r.v, msgpack::type::nil()); CHECK(ok, "answering fails"); back.push_back(r); held.erase(held.begin() + (long)i); break; }
      default: { if (back.empty()) break; size_t i = s.choose(back.size()); NOTE("join the answer after " << i << " others"); mp::rpc_response r; CHECK(a->join(back[i].id, &r), "join fails"); CHECK(r.msgid == back[i].id && r.is_error() == back[i].err, "another answer"); std::string g; CHECK((back[i].err ? r.error_as(&g) : r.result_as(&g)) && g == back[i].v, "the answer holds " << g.size() << " other bytes"); CHECK((back[i].err ? r.error_string() : r.result_string()) == back[i].v, "the answer's text"); int no; CHECK(!(back[i].err ? r.error_as(&no) : r.result_as(&no)), "a string passes for a number"); if (!back[i].err) CHECK(r.error_code() == 0, "error code"); for (size_t k = 0; k <= i; k++) { out -= std::min(out, back.front().v.size() + 39); back.pop_front(); } c.label("joined"); }
    }
    if (s.coin()) { closed = true; b.reset(); cutting.erase(sv[1]); NOTE("the far end goes"); mp::rpc_response r; size_t m = back.size(); for (size_t i = 0; i < m; i++) { mp::rpc_message g; CHECK(a->receive(&g) && g.msgid() == back[i].id, "an answer sent before the end is lost"); } mp::rpc_message g; CHECK(!a->receive(&g), "a message after the end"); CHECK(a->try_receive(&g) < 0, "try_receive after the end"); uint32_t id; bool ok = true; signal(SIGPIPE, SIG_DFL); for (int i = 0; i < 3 && ok; i++) ok = a->send("x", mp::argument0(), &id); CHECK(!ok, "sending to nobody succeeds"); }
    (void)closed; cuts = nullptr; }
  CHECK(descriptors() == before, "a descriptor is left open"); c.label("short transfers", shorts); c.label("interruptions", eintrs);
}
static void patience(Src &s, Ctx &c) {   // time limits
  Clean cl; double lim = s.pick<double>({0.02, 0.05, 0.1}); auto now = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }; c.nt(); uint16_t port = fresh_port();
  if (s.coin()) { NOTE("a server that never answers, limit " << lim); int ls = __real_socket(AF_UNIX, SOCK_STREAM, 0); struct Shut { int f; ~Shut() { ::close(f); } } sl{ls}; sockaddr_un u; socklen_t un = name_of(u, port); if (__real_bind(ls, (sockaddr *)&u, un) || __real_listen(ls, 5)) throw Fail("harness: listen"); double t0 = now(); mp::rpc_client k("127.0.0.1", port, lim); try { k.call<s1>("x")(s.coin() ? "" : std::string(3000000, 'x')); FAIL("returned"); } catch (mp::rpc_timeout_error &) {} catch (const std::exception &e) { FAIL("raises " << e.what()); } double d = now() - t0; CHECK(d >= lim * 0.95, "gives up after " << d << " s of " << lim); CHECK(d < 15, "waits " << d << " s, the limit is " << lim); c.label("client"); }
  else { NOTE("a client that sends nothing, limit " << lim); mp::rpc_server sv(lim); reg_all(sv); CHECK(sv.create(port), "create"); CHECK(sv.run(1, false), "run"); Guard g{sv, nullptr}; double t0 = now(); int fd = raw_connect(port); struct Shut { int f; ~Shut() { ::close(f); } } sf{fd}; Src q; q.seed(1); if (s.coin()) { std::string rq = put(V::arr({V::of(0), V::of(7), V::str("echo"), V::arr({V::str("a")})}), q); raw_put(fd, rq); std::string b; V v; CHECK(raw_value(fd, b, v) && v.a.size() == 4 && v.a[3].s == "a", "no answer"); t0 = now(); } if (s.coin()) raw_put(fd, "\x94"); std::string b; V v; CHECK(!raw_value(fd, b, v), "an answer to nothing"); double d = now() - t0; CHECK(d >= lim * 0.95 - 0.005, "the connection is closed after " << d << " s, the limit is " << lim); CHECK(d < 15, "the connection stays open for " << d << " s"); mp::rpc_client k("127.0.0.1", port, 20); CHECK(k.call<s1>("echo")("z") == "z", "the server does not serve the next client"); c.label("server"); }
}
static double limit_of(int fd, int opt) { struct timeval t = {}; socklen_t l = sizeof t; if (getsockopt(fd, SOL_SOCKET, opt, &t, &l)) throw Fail("harness: getsockopt"); return t.tv_sec + t.tv_usec / 1e6; }
static bool close_to(double got, double want) { return got > want - 1e-5 && got < want + 0.02; }
static void sockets(Src &s, Ctx &c) {   // the life of sockets, with failing system calls
  Clean cl; failed.clear(); std::set<int> before = descriptors(); std::set<int> mine; { mp::socket sk[3]; struct M { int fd = -1; uint16_t port = 0; } m[3]; uint16_t ports[2] = {fresh_port(), fresh_port()}; size_t n = 1 + s.size(20); c.nt(n > 3);
    for (size_t t = 0; t < n; t++) { size_t i = s.choose(3); mp::socket &x = sk[i]; M &y = m[i]; failed.clear(); faults = s.coin(1, 3) ? &s : nullptr; uint16_t p = ports[s.choose(2)]; bool listening = false; for (auto &q : m) listening |= q.port == p;
      switch (s.choose(6)) {
        case 0: { NOTE("listen " << i); bool ok = x.listen(p, 100); faults = nullptr; CHECK(ok == (failed.empty() && !listening), "listen returns " << ok << (listening ? " on a port in use" : "") << (failed.empty() ? "" : ", " + failed + " fails")); if (ok) { CHECK(y.fd < 0 || x.get() == y.fd || !descriptors().count(y.fd), "the earlier descriptor is left open"); y.fd = x.get(); y.port = p; } break; }
        case 1: { NOTE("connect " << i); bool ok = x.connect("127.0.0.1", p); faults = nullptr; bool left = false; for (auto &q : m) left |= q.port == p; CHECK(ok == (failed.empty() && listening), "connect returns " << ok << (listening ? "" : " without a listener") << (failed.empty() ? "" : ", " + failed + " fails")); if (ok) { y.fd = x.get(); y.port = 0; } break; }
        case 2: { NOTE("close " << i); faults = nullptr; bool ok = x.close(); CHECK(ok == (y.fd >= 0), "close returns " << ok); y = M(); break; }
        case 3: { NOTE("release " << i); faults = nullptr; int fd = x.release(); CHECK(fd == y.fd, "release gives " << fd); if (fd >= 0) { CHECK(descriptors().count(fd), "release closes"); ::close(fd); } y = M(); break; }
        case 4: { double d = s.coin() ? (double)s.choose(5) : s.choose(100000) / 1e3; int w = (int)s.choose(3); NOTE("time limit " << d); bool ok = w == 0 ? x.set_timeout(d) : w == 1 ? x.set_recv_timeout(d) : x.set_send_timeout(d); faults = nullptr; CHECK(ok == (y.fd >= 0 && failed.empty()), "setting a time limit returns " << ok); if (ok) { if (w != 2) CHECK(close_to(limit_of(y.fd, SO_RCVTIMEO), d), "receive limit"); if (w != 1) CHECK(close_to(limit_of(y.fd, SO_SNDTIMEO), d), "send limit"); } break; }
        default: { bool on = s.coin(); tcp_option = -1; NOTE("nodelay " << on); bool ok = x.set_nodelay(on); faults = nullptr; CHECK(ok == (y.fd >= 0 && failed.empty()), "set_nodelay returns " << ok); if (ok) CHECK(tcp_option == on, "set_nodelay sets " << tcp_option); }
      }
      if (!failed.empty()) c.label("system call fails"); std::set<int> now = descriptors(), want = before; for (size_t k = 0; k < 3; k++) { CHECK(sk[k].get() == m[k].fd, "socket " << k << " holds descriptor " << sk[k].get() << ", not " << m[k].fd); if (m[k].fd >= 0) want.insert(m[k].fd); } CHECK(now == want, "open descriptors: " << now.size() << ", held: " << want.size());
    } faults = nullptr; }
  CHECK(descriptors() == before, "a descriptor is left open");
}
struct Ts { int i = 0; VC v; std::string t; MI m; MSGPACK_DEFINE(i, v, t, m); bool operator==(const Ts &r) const { return i == r.i && v == r.v && t == r.t && m == r.m; } };
MPRPC_PROC(m_str, std::string(std::string, int)); MPRPC_PROC(m_ts, Ts(Ts)); MPRPC_GEN(1, gen, m_str, m_ts);
static void macros(Src &s, Ctx &c) {
  Clean cl; int n = 0; gen_server sv(0); sv.set_m_str([&](std::string a, int b) { n++; return a + std::to_string(b); }); sv.set_m_ts([&](Ts r) { n++; r.i ^= 1; return r; }); uint16_t port = fresh_port(); CHECK(sv.create(port), "create"); CHECK(sv.run(1, false), "run"); Guard g{sv, nullptr}; size_t k = 1 + s.choose(4); c.nt(); { gen_client cn("localhost", port, 20); for (size_t i = 0; i < k; i++) { std::string a = s.bytes(20); int b = (int)s.i64(); CHECK(cn.call_m_str(a, b) == a + std::to_string(b), "m_str returns another value"); Ts r; r.i = (int)s.i64(); ser::gen(s, r.v); ser::gen(s, r.t); ser::gen(s, r.m); Ts e = r; e.i ^= 1; NOTE("structure with " << r.v.size() << " " << r.t.size() << " " << r.m.size()); CHECK(cn.call_m_ts(r) == e, "m_ts returns another value"); } } CHECK(n == (int)k * 2, n << " executions");
}
typedef std::string SS;
template <class A> static std::string repack(msgpack::object &o, bool &refused) { msgpack::sbuffer b; refused = false; try { A a; o.convert(&a); msgpack::packer<msgpack::sbuffer> k(b); a.msgpack_pack(k); } catch (msgpack::type_error &) { refused = true; } return std::string(b.data(), b.size()); }
static void arguments(Src &s, Ctx &c) {   // argument lists of any length and any types, read by functions of one to nine parameters
  size_t n = 1 + s.choose(9), k = s.coin() ? n : s.choose(n + 3); size_t wrong = s.coin(1, 4) ? s.choose(n) : 99; std::vector<V> a; for (size_t i = 0; i < k; i++) a.push_back((i % 2 == 1) == (i != wrong) ? V::str(s.bytes(5)) : V::of(s.uedge(32))); std::string bytes = put(V::arr(a), s); msgpack::unpacker u; u.reserve_buffer(bytes.size()); memcpy(u.buffer(), bytes.data(), bytes.size()); u.buffer_consumed(bytes.size()); if (!u.execute()) throw Fail("harness: unpacker"); msgpack::object o = u.data(); std::unique_ptr<msgpack::zone> z(u.release_zone()); typedef unsigned U; bool refused = false; std::string r; c.nt(n > 1); NOTE(k << " arguments for " << n << " parameters: " << show(text(V::arr(a))));
  switch (n) { case 1: r = repack<mp::argument1<U>>(o, refused); break; case 2: r = repack<mp::argument2<U, SS>>(o, refused); break; case 3: r = repack<mp::argument3<U, SS, U>>(o, refused); break; case 4: r = repack<mp::argument4<U, SS, U, SS>>(o, refused); break; case 5: r = repack<mp::argument5<U, SS, U, SS, U>>(o, refused); break; case 6: r = repack<mp::argument6<U, SS, U, SS, U, SS>>(o, refused); break; case 7: r = repack<mp::argument7<U, SS, U, SS, U, SS, U>>(o, refused); break; case 8: r = repack<mp::argument8<U, SS, U, SS, U, SS, U, SS>>(o, refused); break; default: r = repack<mp::argument9<U, SS, U, SS, U, SS, U, SS, U>>(o, refused); }
  if (wrong < k) { CHECK(refused, "argument " << wrong << " of another type is accepted"); c.label("another type"); return; } if (refused) { CHECK(k < n, "an argument list is refused"); c.label("short list refused"); return; }
  In in{r}; V v = in.get(); CHECK(in.p == r.size() && v.k == 6 && v.a.size() == n, "the arguments are packed as " << show(text(v))); for (size_t i = 0; i < n; i++) { V w = i < k ? a[i] : i % 2 ? V::str("") : V::of(0); CHECK(v.a[i].k == w.k && text(v.a[i]) == text(w), "parameter " << i << " is " << show(text(v.a[i])) << " instead of " << show(text(w))); } c.label(k < n ? "too few" : k > n ? "too many" : "as many");
}
static void no_connection(Src &s, Ctx &c) {   // clients whose connections fail: an error, no descriptor left, and a later call works
  Clean cl; failed.clear(); std::set<int> before = descriptors(); { int nt = 2; mp::rpc_server sv(0); reg_all(sv); uint16_t port = fresh_port(), none = fresh_port(); { faults = s.coin() ? &s : nullptr; failed.clear(); bool ok = sv.create(port); faults = nullptr; CHECK(ok == failed.empty(), "create returns " << ok << (failed.empty() ? "" : ", " + failed + " fails")); if (!ok) { CHECK(!sv.run(1, false) && !sv.running(), "a server without a socket runs"); NOTE("server: " << failed << " fails"); c.label("no server"); CHECK(sv.create(port), "create after a failure"); } { mp::rpc_server other(0); CHECK(!other.create(port), "two servers on one port"); CHECK(!other.serv(port, 1), "serv on a port in use succeeds"); CHECK(!other.running(), "runs"); } }
    CHECK(sv.run(nt, false), "run"); Guard g{sv, nullptr}; size_t n = 1 + s.choose(6); c.nt(n > 1); mp::rpc_client k("127.0.0.1", port, s.coin() ? 0 : 20), lost("127.0.0.1", none, s.coin() ? 0 : 20); bool connected = false;
    for (size_t i = 0; i < n; i++) { if (s.coin(1, 4)) { NOTE("call to nobody"); try { lost.call<s1>("echo")("a"); FAIL("a call to nobody returns"); } catch (const mp::rpc_io_error &) {} catch (const std::exception &e) { FAIL("a call to nobody raises " << e.what()); } continue; } failed.clear(); std::string a = s.bytes(10), r; bool ok = true; many = true; faults = s.coin() ? &s : nullptr; try { r = k.call<s1>("echo")(a); } catch (const mp::rpc_io_error &) { ok = false; } catch (const std::exception &e) { faults = nullptr; FAIL("raises " << e.what()); } faults = nullptr; many = false; NOTE("call" << (failed.empty() ? "" : ", " + failed + " fails")); CHECK(ok || (!connected && !failed.empty()), "a call fails though nothing failed"); if (ok) { CHECK(r == a, "echo returns " << show(r)); connected = true; } if (!failed.empty()) c.label(ok ? "connected all the same" : "no connection"); } }
  CHECK(descriptors() == before, "a descriptor is left open");
}
Suite pbt::suite() {
  Suite u; u.property = "C51";
  u.rule = "Servers with one to three threads and functions of zero to nine arguments; histories of well-behaved clients (calls, unknown names, arguments and results of other types, functions that throw) and raw connections that send generated messages in generated pieces, in every encoding of a value: several requests at once, too few or too many arguments, messages that are no request, values that are no message, bytes that are no value, leaving before the answer; executions are counted per argument tuple, descriptors too. Clients against a far end that answers anything; message streams with every transfer cut or interrupted; time limits; sockets with failing system calls. Non-trivial: a history of more than two steps, or more than one client or call.";
  u.props = {{"serve", serve, 1500, 30000, false}, {"clients", clients, 600, 10000, false}, {"far-end", far_end, 2000, 30000, false}, {"streams", streams, 4000, 60000, true}, {"sockets", sockets, 2000, 30000, true}, {"macros", macros, 300, 3000, false}, {"arguments", arguments, 10000, 200000, false}, {"no-connection", no_connection, 500, 8000, false}, {"patience", patience, 40, 400, false}};
  u.assumptions = {"the msgpack library is a stand-in with the names and behaviour of msgpack-c 0.5, written from the format", "the TCP sockets are carried by AF_UNIX sockets", "interleavings are those of the real threads of the run", "a client whose connection broke is not used again"}; u.wall_limit = 40;
  return u;
}
