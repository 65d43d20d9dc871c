// A network inside the process: connect() and accept() of the code under test are given the two
// ends of a socket pair, send() and recv() can be cut short or interrupted at the case's choice,
// and a receive that nothing can satisfy is a failure instead of a hang.
#ifndef NET_H
#define NET_H
#include "pbt.h"
#include <errno.h>
#include <deque>
#include <map>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include <network/dns.h>
#include <network/socket.h>
namespace net {
static pbt::Src *src;            // source of short transfers and interruptions (none: direct)
static int64_t budget = -1;        // send() fails once so many bytes were accepted (-1: never)
static bool strict = true;       // a receive without data is a failure
static uint64_t shorts, eintrs;
static std::map<int, std::deque<int>> backlog;   // port -> ends waiting to be accepted
static int tcp_option = -1;                       // last value given to a TCP option
static bool (*faulty)(const char *call);          // whether this system call fails (none: never)
static std::vector<uint32_t> hosts, tried;         // hosts that answer (none: all), hosts that were tried
static void (*on_connect)(int peer);             // called with the far end of a new connection
static size_t cut(size_t n) { if (!src || n <= 1 || !src->coin(1, 3)) return n; shorts++; return 1 + src->choose(n); }
static bool intr() { if (src && src->coin(1, 10)) { eintrs++; errno = EINTR; return true; } return false; }
static void reset() { for (auto &b : backlog) for (int f : b.second) ::close(f); backlog.clear(); src = nullptr; on_connect = nullptr; faulty = nullptr; tcp_option = -1; hosts.clear(); tried.clear(); strict = true; budget = -1; shorts = eintrs = 0; }
struct Resolver : pfi::network::dns_resolver { std::vector<pfi::network::ipv4_address> resolve(const std::string &h, uint16_t) { return std::vector<pfi::network::ipv4_address>(1, pfi::network::ipv4_address(127, 0, 0, 1)); } };
static void init() { pfi::network::stream_socket::set_dns_resolver(pfi::lang::shared_ptr<pfi::network::dns_resolver>(new Resolver)); }
}
extern "C" {
ssize_t __real_send(int, const void *, size_t, int); ssize_t __real_recv(int, void *, size_t, int); int __real_connect(int, const struct sockaddr *, socklen_t); int __real_accept(int, struct sockaddr *, socklen_t *); int __real_setsockopt(int, int, int, const void *, socklen_t);
ssize_t __wrap_send(int fd, const void *p, size_t n, int fl) {
  if (net::intr()) return -1;
  size_t m = net::cut(n); if (net::budget >= 0) { if (!net::budget) { errno = EPIPE; return -1; } m = std::min<size_t>(m, (size_t)net::budget); } ssize_t r = __real_send(fd, p, m, fl | MSG_NOSIGNAL | (net::strict ? MSG_DONTWAIT : 0));
  if (r < 0 && errno == EAGAIN && net::strict) throw pbt::Fail("harness: the in-process connection is full");
  if (r > 0 && net::budget >= 0) net::budget -= r; return r;
}
ssize_t __wrap_recv(int fd, void *p, size_t n, int fl) {
  if (net::intr()) return -1;
  if (net::strict && n > 0) { struct pollfd q = {fd, POLLIN, 0}; int k = ::poll(&q, 1, 0); if (k == 0) throw pbt::Fail("a read waits for bytes that were never sent"); }
  return __real_recv(fd, p, net::cut(n), fl);
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (net::intr()) return -1;
  const struct sockaddr_in *s = (const struct sockaddr_in *)a; uint32_t h = ntohl(s->sin_addr.s_addr); net::tried.push_back(h); bool up = net::hosts.empty(); for (uint32_t x : net::hosts) up |= x == h; auto it = net::backlog.find(ntohs(s->sin_port)); if (it == net::backlog.end() || !up) { errno = ECONNREFUSED; return -1; }
  int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return -1; if (::dup2(sv[0], fd) < 0) return -1; ::close(sv[0]); it->second.push_back(sv[1]); if (net::on_connect) net::on_connect(sv[1]); return 0;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
  if (net::intr()) return -1;
  struct sockaddr_in me; socklen_t n = sizeof me; ::getsockname(fd, (struct sockaddr *)&me, &n); auto &q = net::backlog[ntohs(me.sin_port)]; if (q.empty()) { errno = EAGAIN; return -1; }
  int r = q.front(); q.pop_front(); if (a) { struct sockaddr_in s = {}; s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); s.sin_port = htons(40000); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); } return r;
}
int __wrap_setsockopt(int fd, int level, int name, const void *v, socklen_t l) { if (net::faulty && net::faulty("setsockopt")) { errno = EINVAL; return -1; } if (level == IPPROTO_TCP) { if (name == TCP_NODELAY) net::tcp_option = *(const int *)v; return 0; } if (name == TCP_DEFER_ACCEPT) return 0; return __real_setsockopt(fd, level, name, v, l); }
}
namespace net {
struct Server {   // one listening server_socket
  pfi::network::server_socket s; Server() { if (!s.create(0, 5)) throw pbt::Fail("harness: cannot listen"); backlog[s.port()]; }
  pfi::network::stream_socket *accept() { auto *r = s.accept(); if (!r) throw pbt::Fail("accept() does not return the waiting connection"); return r; }
};
struct Port {     // a port answered by the harness itself: connections are raw descriptors
  int n; Port(int p = 3) : n(p) { backlog[n]; } int take() { auto &q = backlog[n]; if (q.empty()) throw pbt::Fail("no connection was made"); int f = q.front(); q.pop_front(); return f; }
};
static void raw_put(int fd, const std::string &s) { size_t p = 0; while (p < s.size()) { ssize_t r = ::write(fd, s.data() + p, s.size() - p); if (r <= 0) throw pbt::Fail("harness: raw write"); p += r; } }
static std::string raw_get(int fd) { std::string r; char b[65536]; for (;;) { ssize_t n = __real_recv(fd, b, sizeof b, MSG_DONTWAIT); if (n <= 0) break; r.append(b, n); } return r; }
}
#endif
