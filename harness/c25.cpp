#include "net.h"
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <network/iostream.h>
using namespace pbt;
using pfi::network::stream_socket; using pfi::network::server_socket; using pfi::network::socketstream;
static std::string payload(Src &s) {
  size_t n; switch (s.choose(8)) { case 0: n = s.choose(20); break; case 1: case 2: n = s.choose(300); break; case 3: n = 8192 + (size_t)s.range(-3, 3); break; case 4: n = 16384 + (size_t)s.range(-3, 3); break; case 5: n = s.coin() ? s.choose(20000) : s.edge_len(33000); break; default: n = s.choose(8); }
  if (n <= 24) return s.coin() ? s.over("ab\r\n", n) : s.bytes(n); std::string r(n, 0); uint64_t x = s.choose(1u << 16), per = s.pick<uint64_t>({7, 50, 1000, 100000}); for (size_t i = 0; i < n; i++) { r[i] = (char)(x + i * 131 + (i >> 8) * 7); if (i % per == per - 1) r[i] = '\n'; else if (i % per == per - 2 && (x & 1)) r[i] = '\r'; } return r;
}
struct Dir { std::string sent; size_t flushed = 0, got = 0; bool closed = false; size_t avail() const { return flushed - got; } };   // one direction of a connection
struct Hosts : pfi::network::dns_resolver { static std::vector<uint32_t> list; std::vector<pfi::network::ipv4_address> resolve(const std::string &, uint16_t) { std::vector<pfi::network::ipv4_address> r; for (uint32_t x : list) r.push_back(pfi::network::ipv4_address(x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255)); return r; } };
std::vector<uint32_t> Hosts::list;
struct Ptr { stream_socket *p; stream_socket *get() const { return p; } };
struct End { std::unique_ptr<stream_socket> s; };
static void take(Dir &d, const std::string &b, const char *what) {
  CHECK(d.got + b.size() <= d.sent.size(), what << " delivers " << b.size() << " bytes, only " << d.sent.size() - d.got << " were sent");
  if (d.sent.compare(d.got, b.size(), b) != 0) { size_t i = 0; while (d.sent[d.got + i] == b[i]) i++; FAIL(what << " delivers wrong bytes from position " << d.got + i << ": " << show(b.substr(i, 8)) << " instead of " << show(d.sent.substr(d.got + i, 8))); }
  d.got += b.size(); if (d.got > d.flushed) d.flushed = d.got;
}
static void reader(Src &s, Ctx &c, stream_socket &k, Dir &d) {
  size_t av = d.avail(); int op = (int)s.choose(6);
  switch (op) {
    case 0: case 1: { size_t n = d.closed && s.coin(1, 3) ? av + s.choose(50) : s.coin(1, 3) ? av : s.choose(av + 1); NOTE("read " << n << " of " << av); std::string b(n + 8, '#'); int r = k.read(&b[0], (int)n); size_t w = std::min(n, d.closed ? av : n); CHECK(r == (int)w, "read of " << n << " returns " << r << ", " << av << " bytes available" << (d.closed ? " and the end" : "")); CHECK(b.substr(n) == "########", "read writes beyond the size asked for"); b.resize(r); take(d, b, "read"); if (n > av) c.label("short read at the end"); break; }
    case 2: if (av || d.closed) { NOTE("getc"); int r = k.getc(); if (av) { CHECK(r >= 0 && r <= 255, "getc returns " << r << ", " << av << " bytes available"); take(d, std::string(1, (char)r), "getc"); } else CHECK(r == EOF, "getc at the end returns " << r); } break;
    case 3: { size_t nl = d.sent.find('\n', d.got); bool have = nl != std::string::npos && nl < d.flushed; size_t line = have ? nl - d.got + 1 : av; int lim = s.coin(1, 3) ? (int)s.choose(line + 3) : -1; bool enough = have || d.closed || (lim >= 0 && (size_t)lim <= av); if (!enough) break;
      size_t used = lim >= 0 && (size_t)lim < line ? lim : line; std::string w = d.sent.substr(d.got, used); if (!w.empty() && w.back() == '\n') { w.pop_back(); if (!w.empty() && w.back() == '\r') w.pop_back(); } bool wok = !(used == 0 && lim != 0 && av == 0);
      NOTE("getline limit " << lim); std::string g = "old"; bool ok = k.getline(g, lim); CHECK(ok == wok, "getline returns " << ok << " with " << av << " bytes left"); if (ok) CHECK(g == w, "getline gives " << show(g, 60) << ", not " << show(w, 60)); d.got += used; if (d.got > d.flushed) d.flushed = d.got; c.label(lim >= 0 ? "line read with limit" : "line read"); break; }
    case 4: { size_t n = s.choose(av + 1); NOTE("stream read " << n); socketstream ss(Ptr{&k}); std::string b(n, 0); ss.read(&b[0], n); CHECK((size_t)ss.gcount() == n, "the stream delivers " << ss.gcount() << " of " << n << " bytes"); take(d, b, "stream read"); c.label("through an iostream"); break; }
    default: { size_t nl = d.sent.find('\n', d.got); if (nl == std::string::npos || nl >= d.flushed) break; NOTE("stream getline"); socketstream ss(Ptr{&k}); std::string g; std::getline(ss, g); take(d, g + "\n", "stream getline"); }
  }
}
static void writer(Src &s, Ctx &c, stream_socket &k, Dir &d) {
  int op = (int)s.choose(6); if (d.sent.size() - d.got > 60000) { k.flush(); d.flushed = d.sent.size(); return; }
  switch (op) {
    case 0: case 1: { std::string p = payload(s); NOTE("write " << p.size()); int r = k.write(p.data(), (int)p.size()); CHECK(r == (int)p.size(), "write of " << p.size() << " returns " << r); d.sent += p; break; }
    case 2: { std::string p = payload(s); NOTE("puts " << p.size()); bool r = k.puts(p); CHECK(r, "puts fails"); d.sent += p; break; }
    case 3: { std::string p = payload(s); NOTE("stream << " << p.size()); socketstream ss(Ptr{&k}); if (s.coin(1, 3)) for (size_t i = 0; i < p.size() && i < 50; i++) { ss.put(p[i]); d.sent += p[i]; } else { ss << p; d.sent += p; } if (s.coin()) { ss << std::flush; d.flushed = d.sent.size(); } CHECK(ss.good(), "writing through the stream fails"); break; }
    default: { NOTE("flush"); int r = k.flush(); CHECK(r < 0, "flush fails: " << r); d.flushed = d.sent.size(); }
  }
}
static void drain(Src &s, Ctx &c, stream_socket &k, Dir &d) {   // everything up to the end of the stream
  if (s.coin()) { std::string b(d.sent.size() - d.got + 100, '#'); int r = k.read(&b[0], (int)b.size()); CHECK(r >= 0, "read returns " << r); b.resize(r); take(d, b, "reading to the end"); }
  else { std::string b; int ch; while ((ch = k.getc()) != EOF) b += (char)ch; take(d, b, "getc to the end"); }
  CHECK(k.getc() == EOF && !k.is_connected(), "not at the end after the end"); std::string l = "x"; CHECK(!k.getline(l), "getline succeeds at the end");
}
static void history(Src &s, Ctx &c) {
  net::reset(); net::init(); net::Server sv; net::Server sv2; struct Off { ~Off() { net::src = nullptr; } } off;
  stream_socket a; std::unique_ptr<stream_socket> b; Dir ab, ba; int conn = 0; size_t moved = 0;
  auto connect = [&](bool second) { CHECK(a.connect("localhost", (second ? sv2 : sv).s.port()), "connect fails"); b.reset((second ? sv2 : sv).accept()); ab = Dir(); ba = Dir(); conn++; CHECK(a.is_connected() && b->is_connected() && a.remote_port() == (second ? sv2 : sv).s.port() && a.remote_addr() == pfi::network::ipv4_address(127, 0, 0, 1), "addresses of the connection"); };
  net::src = &s; connect(false);
  size_t n = 2 + s.size(30); c.nt(n >= 4); bool dead = false;
  for (size_t i = 0; i < n && !dead; i++) {
    bool side = s.coin(); Dir &out = side ? ab : ba, &in = side ? ba : ab; stream_socket &k = side ? a : *b;
    switch (s.choose(9)) {
      case 0: case 1: case 2: NOTE((side ? "A:" : "B:")); writer(s, c, k, out); break;
      case 3: case 4: case 5: case 6: NOTE((side ? "A:" : "B:")); reader(s, c, k, in); break;
      case 7: if (s.coin(1, 3)) { // reconnect A while bytes are buffered
          bool shut = s.coin(); NOTE("reconnect" << (shut ? " after shutdown" : "")); std::unique_ptr<stream_socket> old(std::move(b)); Dir oab = ab; if (shut) { CHECK(a.shutdown(), "shutdown fails"); CHECK(!a.is_connected(), "connected after shutdown"); } c.label("reconnected"); connect(s.coin());
          size_t must = oab.flushed; Dir q = oab; drain(s, c, *old, q); CHECK(q.got >= must, "bytes flushed before the reconnection were lost: " << must - q.got); } break;
      default: if (s.coin(1, 6)) { // B goes away: its bytes must all arrive, then the end
          NOTE("B closes"); if (s.coin()) { ba.flushed = ba.sent.size(); b.reset(); } else { CHECK(b->flush() < 0, "flush fails"); ba.flushed = ba.sent.size(); b->shutdown(); } ba.closed = true; bool unread = true; (void)unread; c.label("closed by the peer");
          if (s.coin(1, 3) && ba.avail()) { NOTE("A: getc, then a write that cannot succeed"); int ch = a.getc(); take(ba, std::string(1, (char)ch), "getc"); std::string p(9000, 'z'); a.write(p.data(), (int)p.size()); size_t before = ba.got; std::string rest; int q; while ((q = a.getc()) != EOF) rest += (char)q; take(ba, rest, "reading after a failed write"); CHECK(ba.got > before || ba.got == ba.sent.size() || ba.sent.size() - before > 0, "lost"); dead = true; break; }
          size_t m = s.choose(4); for (size_t q = 0; q < m; q++) { if (!a.is_connected() && ba.avail() == 0) break; reader(s, c, a, ba); } drain(s, c, a, ba); CHECK(ba.got == ba.sent.size(), "bytes lost before the end: " << ba.sent.size() - ba.got); dead = true; }
    }
    moved += 1;
  }
  if (!dead) { CHECK(a.flush() < 0 && b->flush() < 0, "flush fails"); ab.flushed = ab.sent.size(); ba.flushed = ba.sent.size(); size_t r = ab.avail(); std::string x(r, 0); CHECK(b->read(&x[0], (int)r) == (int)r, "the last read is short"); take(ab, x, "last read"); r = ba.avail(); x.assign(r, 0); CHECK(a.read(&x[0], (int)r) == (int)r, "the last read is short"); take(ba, x, "last read"); b.reset(); CHECK(a.getc() == EOF, "bytes after the last one"); }
  c.label("short transfers", net::shorts); c.label("interruptions", net::eintrs); net::src = nullptr; net::reset();
}
// the calls behind server sockets, failing at the case's choice
static Src *faults; static std::string failed;
static bool fault(const char *call) { if (!faults || !failed.empty() || !faults->coin(1, 8)) return false; failed = call; return true; }
extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int); int __real_getsockname(int, struct sockaddr *, socklen_t *);
int __wrap_socket(int a, int b, int c) { if (fault("socket")) { errno = EMFILE; return -1; } return __real_socket(a, b, c); }
int __wrap_bind(int f, const struct sockaddr *a, socklen_t l) { if (fault("bind")) { errno = EADDRINUSE; return -1; } return __real_bind(f, a, l); }
int __wrap_listen(int f, int b) { if (fault("listen")) { errno = EADDRINUSE; return -1; } return __real_listen(f, b); }
int __wrap_getsockname(int f, struct sockaddr *a, socklen_t *l) { if (fault("getsockname")) { errno = ENOBUFS; return -1; } return __real_getsockname(f, a, l); }
}
static std::set<int> descriptors() { std::set<int> r; DIR *d = opendir("/proc/self/fd"); if (!d) throw Fail("harness: /proc/self/fd"); while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') r.insert(atoi(e->d_name)); r.erase(dirfd(d)); closedir(d); return r; }
static std::set<int> opened(const std::set<int> &before) { std::set<int> r; for (int x : descriptors()) if (!before.count(x)) r.insert(x); return r; }
static double limit_of(int fd, int opt) { struct timeval t = {}; socklen_t l = sizeof t; if (getsockopt(fd, SOL_SOCKET, opt, &t, &l)) throw Fail("harness: getsockopt"); return t.tv_sec + t.tv_usec / 1e6; }
static bool close_to(double got, double want) { return got > want - 1e-5 && got < want + 0.02; }   // the kernel rounds up to its ticks
static double seconds(Src &s) { switch (s.choose(4)) { case 0: return (double)s.choose(5); case 1: return s.choose(1000000) / 1e6; case 2: return s.choose(100000) + s.choose(1000) / 1e3; default: return -1 - (double)s.choose(3); } }
static void listening(Src &s, Ctx &c) {   // the life of server sockets, with failing system calls
  net::reset(); net::init(); faults = nullptr; struct Off { ~Off() { net::src = nullptr; net::faulty = nullptr; faults = nullptr; net::reset(); } } off; std::set<int> before = descriptors();
  { struct M { bool alive = false; int fd = -1; uint16_t port = 0; double timeout = -1; std::deque<int> order; }; server_socket sv[2]; M m[2]; std::vector<std::pair<std::unique_ptr<stream_socket>, std::unique_ptr<stream_socket>>> conns; size_t n = 1 + s.size(24); c.nt(n >= 4); for (int i = 0; i < 2; i++) CHECK(!sv[i].is_alive() && !sv[i].close() && !sv[i].accept(), "a new server socket is not closed");
    auto forget = [](int p) { for (int f : net::backlog[p]) ::close(f); net::backlog.erase(p); };
    auto drop = [&](M &x) { x.alive = false; x.fd = -1; };
    for (size_t t = 0; t < n; t++) {
      int i = (int)s.choose(2); server_socket &v = sv[i]; M &x = m[i]; std::set<int> now = descriptors();
      switch (s.choose(8)) {
        case 0: case 1: case 2: { bool was = x.alive; uint16_t want = s.coin(1, 4) && m[1 - i].alive ? m[1 - i].port : 0; NOTE("create " << i << (want ? " on the other's port" : "") << (was ? " again" : "")); failed.clear(); faults = s.coin(1, 3) ? &s : nullptr; net::faulty = fault; bool ok = v.create(want, 1 + (int)s.choose(10)); faults = nullptr; net::faulty = nullptr; NOTE((ok ? "ok" : "refused") << (failed.empty() ? "" : ", " + failed + " fails"));
          CHECK(ok == (failed.empty() && !want), "create " << (ok ? "succeeds" : "fails") << (want ? " on a port in use" : "") << (failed.empty() ? "" : " though " + failed + " fails")); if (!failed.empty()) c.label(("fails: " + failed).c_str());
          std::set<int> fresh = opened(now), all = descriptors(); bool kept = was && all.count(x.fd);
          if (ok) { if (was) { forget(x.port), x.order.clear(); c.label("created again"); } CHECK(v.is_alive(), "not alive after create"); if (was) { if (fresh.empty() && kept) fresh.insert(x.fd); else CHECK(!kept, "creating again leaves the earlier descriptor open"); } CHECK(fresh.size() == 1, "create leaves " << fresh.size() << " descriptors open"); x.fd = *fresh.begin(); x.alive = true; struct sockaddr_in a = {}; socklen_t l = sizeof a; __real_getsockname(x.fd, (struct sockaddr *)&a, &l); x.port = ntohs(a.sin_port); CHECK(v.port() == x.port && x.port, "port " << v.port() << ", the socket is bound to " << x.port); net::backlog[x.port]; }
          else { CHECK(fresh.empty(), "a create that fails leaves a descriptor open"); CHECK(v.is_alive() == kept, "after a create that fails the server socket is " << (v.is_alive() ? "alive, its descriptor is gone" : "closed, its descriptor is still open")); if (was && !kept) { forget(x.port), x.order.clear(); drop(x); } } break; }
        case 3: { NOTE("close " << i); bool ok = v.close(); CHECK(ok == x.alive, "close returns " << ok << " on a server socket that is " << (x.alive ? "open" : "closed")); if (x.alive) { CHECK(!descriptors().count(x.fd), "close leaves the descriptor open"); forget(x.port), x.order.clear(); drop(x); } break; }
        case 4: { double d = seconds(s); NOTE("timeout " << i << " " << d); bool ok = v.set_timeout(d); CHECK(ok == (x.alive && d >= 0), "set_timeout(" << d << ") returns " << ok << (x.alive ? "" : " on a closed server socket")); if (ok) { x.timeout = d; CHECK(close_to(limit_of(x.fd, SO_RCVTIMEO), d) && close_to(limit_of(x.fd, SO_SNDTIMEO), d), "a time limit of " << d << " s is set to " << limit_of(x.fd, SO_RCVTIMEO) << " and " << limit_of(x.fd, SO_SNDTIMEO)); } break; }
        case 5: { if (!x.alive) { NOTE("accept on closed " << i); CHECK(!v.accept(), "a closed server socket accepts"); break; } if (net::backlog[x.port].empty()) { NOTE("nobody to accept"); CHECK(!v.accept(), "accept without a connection gives one"); break; } NOTE("accept " << i); int bf = net::backlog[x.port].front(); size_t k = x.order.front(); x.order.pop_front(); conns[k].second.reset(v.accept()); auto &p = conns[k]; CHECK(p.second && p.second->is_connected(), "accept does not give the waiting connection"); CHECK(p.second->remote_addr() == pfi::network::ipv4_address(127, 0, 0, 1) && p.second->remote_port() == 40000, "address of the accepted connection"); std::string q = "<" + std::to_string(k) + ">"; CHECK(p.first->puts(q) && p.first->flush() < 0, "writing"); std::string g(q.size(), 0); CHECK(p.second->read(&g[0], (int)g.size()) == (int)g.size() && g == q, "the accepted connection is another one than the first that waits"); c.label("accepted");
          if (s.coin()) { double d = seconds(s); int which = (int)s.choose(3); bool ok = which == 0 ? p.second->set_timeout(d) : which == 1 ? p.second->set_recv_timeout(d) : p.second->set_send_timeout(d); CHECK(ok == (d >= 0), "setting a time limit of " << d << " returns " << ok); double r0 = which == 2 || d < 0 ? 0 : d, s0 = which == 1 || d < 0 ? 0 : d; CHECK(close_to(limit_of(bf, SO_RCVTIMEO), r0) && close_to(limit_of(bf, SO_SNDTIMEO), s0), "a time limit of " << d << " s does not reach the socket"); }
          if (s.coin()) { bool on = s.coin(), bad = s.coin(1, 4); net::tcp_option = -1; failed.clear(); if (bad) net::faulty = [](const char *) { return true; }; bool ok = p.first->set_nodelay(on); net::faulty = nullptr; CHECK(ok == !bad, "set_nodelay returns " << ok << (bad ? " though the system refuses" : "")); if (!bad) CHECK(net::tcp_option == (on ? 1 : 0), "set_nodelay(" << on << ") sets " << net::tcp_option); } break; }
        case 6: { if (!x.alive || x.order.size() > 4) break; std::vector<uint32_t> ips; size_t k = 1 + s.choose(4); for (size_t q = 0; q < k; q++) ips.push_back(0x7f000001u + (uint32_t)s.choose(4) * 0x10100u); net::hosts = {ips[s.choose(k)]}; bool none = s.coin(1, 6); if (none) net::hosts = {1}; Hosts::list = ips; pfi::network::stream_socket::set_dns_resolver(pfi::lang::shared_ptr<pfi::network::dns_resolver>(new Hosts)); net::tried.clear(); std::unique_ptr<stream_socket> a(new stream_socket); NOTE("connect to " << i << ", " << k << " addresses" << (none ? ", none answers" : "")); net::src = &s; bool ok = a->connect("host", x.port); net::src = nullptr;
          std::vector<uint32_t> want; uint32_t hit = 0; for (uint32_t p : ips) { want.push_back(p); if (p == net::hosts[0]) { hit = p; break; } } CHECK(ok == !none && a->is_connected() == ok, "connecting to " << k << " addresses, of which " << (none ? "none" : "one") << " answers, gives " << ok); CHECK(net::tried == want, net::tried.size() << " addresses were tried, not the first " << want.size() << " in order"); net::hosts.clear(); if (k > 1) c.label("several addresses"); if (!ok) break; CHECK(a->remote_addr() == pfi::network::ipv4_address(hit >> 24, hit >> 16 & 255, hit >> 8 & 255, hit & 255) && a->remote_port() == x.port, "remote address " << a->remote_addr().to_string()); x.order.push_back((int)conns.size()); conns.emplace_back(std::move(a), nullptr); break; }
        default: if (!conns.empty()) { auto &p = conns[s.choose(conns.size())]; if (p.second && p.first) { NOTE("drop a connection"); p.first.reset(); CHECK(p.second->getc() == EOF && !p.second->is_connected(), "the end of the connection is not seen"); } }
      }
      for (int q = 0; q < 2; q++) { CHECK(sv[q].is_alive() == m[q].alive, "server socket " << q << " is " << (sv[q].is_alive() ? "alive" : "closed")); CHECK(sv[q].timeout() == m[q].timeout, "timeout() is " << sv[q].timeout() << ", last set to " << m[q].timeout); if (m[q].alive) CHECK(sv[q].port() == m[q].port, "port changed to " << sv[q].port()); else m[q].order.clear(); }
    }
  }
  net::reset(); std::set<int> left = opened(before); CHECK(left.empty(), left.size() << " descriptors are still open after everything is destroyed"); for (int f : before) CHECK(fcntl(f, F_GETFD) >= 0, "a descriptor of somebody else was closed");
}
static void graceful(Src &s, Ctx &c) {   // the last bytes written arrive, though the peer's were not all read
  net::reset(); net::init(); net::Port port; struct Off { ~Off() { net::src = nullptr; net::reset(); } } off; stream_socket a; CHECK(!a.close_gracefully(), "close_gracefully succeeds without a connection"); CHECK(a.connect("localhost", port.n), "connect"); int fd = port.take(); struct Shut { int f; ~Shut() { ::close(f); } } shut{fd}; std::string in = payload(s), out = payload(s); net::raw_put(fd, in); ::shutdown(fd, SHUT_WR); net::src = &s; c.nt(!in.empty() && !out.empty());
  size_t rd = s.choose(in.size() + 1); if (s.coin()) rd = 0; NOTE("the peer sends " << in.size() << " bytes, of which " << rd << " are read, and gets " << out.size()); std::string g(rd, 0); if (rd) CHECK(a.read(&g[0], (int)rd) == (int)rd && g == in.substr(0, rd), "read"); CHECK(a.puts(out), "write"); if (s.coin()) CHECK(a.flush() < 0, "flush"); bool ok = a.close_gracefully(); CHECK(ok && !a.is_connected(), "close_gracefully returns " << ok); net::src = nullptr;
  std::string got; char b[65536]; for (;;) { ssize_t r = __real_recv(fd, b, sizeof b, MSG_DONTWAIT); CHECK(r >= 0, "the peer sees " << (errno == ECONNRESET ? "a reset" : errno == EAGAIN ? "no end" : strerror(errno)) << " after " << got.size() << " of " << out.size() << " bytes"); if (r == 0) break; got.append(b, r); } CHECK(got == out, "the peer gets " << got.size() << " bytes, " << out.size() << " were written"); if (rd < in.size()) c.label("with unread bytes");
}
static void breaking(Src &s, Ctx &c) {   // a connection that takes only so many bytes: what a write or flush reports is what went through
  net::reset(); net::init(); net::Port port; struct Off { ~Off() { net::src = nullptr; net::reset(); } } off; stream_socket a; CHECK(a.connect("localhost", port.n), "connect"); int fd = port.take(); struct Shut { int f; ~Shut() { ::close(f); } } shut{fd}; std::string sent, got; size_t n = 1 + s.size(8); c.nt(n > 1); net::src = &s; int64_t limit = s.coin(1, 6) ? 1000000 : (int64_t)s.choose(s.coin() ? 40000 : 9000); net::budget = limit; NOTE("the connection takes " << limit << " bytes"); bool failed = false; auto through = [&] { got += net::raw_get(fd); return got.size(); };
  for (size_t i = 0; i < n && !failed; i++) switch (s.choose(4)) {
    case 0: case 1: { std::string p = payload(s); NOTE("write " << p.size()); int r = a.write(p.data(), (int)p.size()); size_t t = through(); if (r != (int)p.size()) { failed = true; size_t w = t > sent.size() ? t - sent.size() : 0; CHECK(r == (int)w, "write of " << p.size() << " returns " << r << ", of its bytes " << w << " went through"); CHECK((int64_t)t == limit, "a write fails before the connection does"); } sent += p; break; }
    case 2: { std::string p = payload(s); NOTE("stream write " << p.size()); socketstream ss(Ptr{&a}); if (s.coin(1, 3)) { if (p.size() > 30) p.resize(30); for (char ch : p) ss.put(ch); } else ss.write(p.data(), p.size()); bool fl = s.coin(); if (fl) ss.flush(); sent += p; size_t t = through(); if (!ss) { failed = true; CHECK((int64_t)t == limit, "a stream fails before the connection does"); } else if (fl) CHECK(t == sent.size(), "a flushed stream is good, " << t << " of " << sent.size() << " bytes went through"); break; }
    default: { NOTE("flush"); size_t before = through(); int r = a.flush(); size_t t = through(); if (r >= 0) { failed = true; CHECK((size_t)r == t - before, "flush returns " << r << ", " << t - before << " bytes went through"); CHECK((int64_t)t == limit, "a flush fails before the connection does"); } else CHECK(t == sent.size(), "flush succeeds, " << t << " of " << sent.size() << " bytes went through"); } }
  if (!failed) { int r = a.flush(); size_t t = through(); CHECK((r < 0) == (t == sent.size()), "the last flush returns " << r << ", " << t << " of " << sent.size() << " bytes went through"); failed = r >= 0; }
  CHECK(got == sent.substr(0, got.size()), "the bytes that went through are not the first ones written"); CHECK(failed == ((int64_t)sent.size() > limit), "the connection takes " << limit << " bytes, " << sent.size() << " were written, " << (failed ? "yet it fails" : "and nobody was told")); CHECK(failed == !a.is_connected(), "after a failure the socket is connected"); c.label(failed ? "breaks" : "holds");
  if (failed) { std::string p = payload(s); a.write(p.data(), (int)p.size()); a.flush(); net::budget = -1; CHECK(through() == (size_t)limit, "bytes after the failure"); }
}
Suite pbt::suite() {
  Suite u; u.property = "C25";
  u.rule = "Histories of up to 30 operations on the two ends of a connection (write, puts, stream output, flush; read, getc, line reads with and without limit, stream reads; reconnecting while bytes are buffered; shutdown; closing by the peer, writes after that), with payloads around the 8 KiB buffer size, every send and receive cut short or interrupted at random; the bytes read are compared with the bytes written, per connection and direction. A read that would wait for bytes never sent fails. Histories of up to 24 steps over two server sockets and their connections (creating, also again and on a port in use, closing, accepting, connecting to hosts with several addresses, time limits and options) with failing system calls and descriptor accounting; graceful closes with unread bytes; connections that break after a chosen number of bytes, against what the writes and flushes report. Non-trivial: at least 4 operations, or bytes both ways.";
  u.props = {{"history", history, 20000, 300000, true}, {"listening", listening, 4000, 60000, true}, {"graceful", graceful, 4000, 60000, true}, {"breaking", breaking, 10000, 150000, true}};
  u.assumptions = {"the transport is a socket pair inside the process (connect and accept are stand-ins); bytes not flushed before a reconnection may be dropped", "a write after the peer has gone is only required not to disturb what was received before it"};
  return u;
}
