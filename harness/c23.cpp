#include "net.h"
#include <memory>
#include <network/http.h>
using namespace pbt;
using namespace pfi::network; namespace http = pfi::network::http; using pfi::lang::shared_ptr;
typedef shared_ptr<stream_socket> Sock;
static std::string low(std::string s) { for (auto &x : s) x = (char)tolower((unsigned char)x); return s; }
static std::string token(Src &s, size_t max) { std::string r; size_t n = 1 + s.choose(max); if (max > 6 && s.coin(1, 200)) return s.blob(1 + s.edge_len(2000), "XAbz09-_"); for (size_t i = 0; i < n; i++) r += s.ch("XAbz09-_!#$&'*+.^`|~%"); return r; }
static std::string value(Src &s) { std::string r; size_t n = s.coin(1, 20) ? s.choose(3500) : s.size(30); for (size_t i = 0; i < n; i++) { int k = (int)s.choose(8); r += k == 0 ? ' ' : k == 1 ? s.ch(":;,=\"\t\\") : k == 2 ? (char)(0x80 + s.choose(128)) : (char)(0x21 + s.choose(94)); } size_t a = r.find_first_not_of(" \t"); if (a == std::string::npos) return ""; size_t b = r.find_last_not_of(" \t"); return r.substr(a, b - a + 1); }
static std::string body(Src &s) { size_t n; switch (s.choose(6)) { case 0: if (s.coin(1, 8)) return s.blob(s.edge_len(40000)); return ""; case 1: n = s.choose(6); break; case 2: n = 4096 + (size_t)s.range(-2, 2); break; case 3: n = 8192 + (size_t)s.range(-2, 2); break; case 4: n = s.choose(15000); break; default: n = s.choose(200); } if (n < 40) return s.bytes(n); std::string r(n, 0); uint64_t x = s.choose(65536); for (size_t i = 0; i < n; i++) r[i] = (char)(x + i * 37 + (i >> 7)); if (s.coin()) for (size_t k = 0; k < 4; k++) r[s.choose(n)] = s.ch("\xff\r\n\0\x1a"); return r; }
static std::string pathq(Src &s) { std::string r; size_t n = 1 + s.choose(4); if (s.coin(1, 100)) r = "/" + s.blob(s.edge_len(3000), "ab/09"); for (size_t i = 0; i < n; i++) { r += "/"; size_t m = s.choose(6); for (size_t k = 0; k < m; k++) r += s.coin(1, 8) ? "%2F" : std::string(1, s.ch("ab09-._~!$&'()*+,;=:@")); } if (r.compare(0, 2, "//") == 0) r = "/a" + r; if (s.coin()) { r += "?"; size_t m = 1 + s.choose(12); for (size_t k = 0; k < m; k++) r += s.ch("ab09=&+;/?:@"); } return r; }
struct Msg { bool req; std::string method, uri, reason; int code, ma, mi; std::vector<std::pair<std::string, std::string>> head; std::string data; bool declared, readbody; };
// header fields with distinct names (ignoring case)
static void heads(Src &s, Msg &m) { size_t n = s.size(s.coin(1, 50) ? 60 : 8); for (size_t i = 0; i < n; i++) { std::string k = s.coin(1, 3) ? s.pick<std::string>({"Host", "X-Test", "Accept", "content-type", "Set-Cookie"}) : token(s, 10); bool dup = false; std::string lk = low(k); for (auto &h : m.head) dup |= low(h.first) == lk; if (dup || lk == "content-length" || lk == "transfer-encoding") continue; std::string v = value(s); if (k.size() + v.size() > 4000) v = "long"; m.head.push_back({k, v}); } }
static Msg msg(Src &s, bool req) {
  Msg m; m.req = req; m.method = s.coin() ? s.pick<std::string>({"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"}) : token(s, 6); m.uri = pathq(s); if (s.coin(1, 3)) m.uri = "http://user@example.com:8080" + m.uri; if (s.coin(1, 6)) m.uri += "#frag";
  m.code = s.coin() ? 200 : (int)s.range(100, 999); size_t n = s.choose(4); for (size_t i = 0; i < n; i++) m.reason += (i ? " " : "") + token(s, 6); m.ma = s.coin(3, 4) ? 1 : (int)s.choose(s.coin() ? 10 : 200); m.mi = s.coin(3, 4) ? 1 : (int)s.choose(s.coin() ? 10 : 2000); if (m.method.size() + m.uri.size() > 4000) m.uri = "/long"; if (m.reason.size() > 4000) m.reason = "Long"; heads(s, m); m.data = body(s); m.declared = true; m.readbody = true; return m;
}
static std::string readall(Src &s, std::iostream &b, size_t expect) {
  std::string r; int how = (int)s.choose(4);
  if (how == 0) { int ch; while ((ch = b.get()) != EOF) r += (char)ch; }
  else if (how == 1) { std::string t(s.pick<size_t>({1, 7, 1000, 5000}), 0); for (;;) { b.read(&t[0], t.size()); r.append(t, 0, b.gcount()); if (!b) break; } }
  else if (how == 2) { std::string l; while (std::getline(b, l)) { r += l; if (!b.eof()) r += '\n'; } }
  else { for (;;) { int ch = b.peek(); if (ch == EOF) break; char x; b.get(x); if ((unsigned char)x != ch) throw Fail("peek and get differ"); r += x; } }
  (void)expect; return r;
}
static void fields(http::header &h, const Msg &m, Src &s, const char *what) {
  size_t found = 0; for (auto &x : m.head) { std::string k = x.first; if (s.coin()) for (auto &ch : k) if (s.coin()) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch)); CHECK(h.has_key(k), what << ": header " << k << " is missing"); CHECK(h.get(k) == x.second && h[k] == x.second, what << ": header " << k << " is " << show(h.get(k)) << ", not " << show(x.second)); }
  for (auto &x : h) { std::string lk = low(x.first); if (lk == "content-length" || lk == "transfer-encoding") { found++; continue; } bool known = false; for (auto &y : m.head) known |= low(y.first) == lk; CHECK(known, what << ": unexpected header " << show(x.first)); }
  size_t n = 0; for (auto &x : h) { (void)x; n++; } CHECK(n == found + m.head.size(), what << ": " << n << " headers instead of " << found + m.head.size());
}
static void uris(const uri &g, const std::string &want, const char *what) { uri w(want); CHECK(g.path() == (w.path().empty() ? "/" : w.path()) && g.query() == w.query() && g.authority() == w.authority() && g.scheme() == w.scheme() && g.fragment() == w.fragment(), what << ": target is " << pfi::lang::lexical_cast<std::string>(g) << ", not " << want); }
static void check_read(Src &s, const Sock &k, const Msg &m) {
  if (m.req) { http::request r(k); CHECK(r.method() == m.method, "method is " << show(r.method()) << ", not " << m.method); uris(r.path(), m.uri, "request"); CHECK(r.version() == std::make_pair(m.ma, m.mi), "version " << r.version().first << "." << r.version().second); fields(r.head(), m, s, "request"); if (m.readbody) { std::string b = readall(s, r.body(), m.data.size()); CHECK(b == m.data, "body of " << m.data.size() << " bytes arrives as " << b.size() << (b.size() == m.data.size() ? " different bytes" : " bytes")); } }
  else { http::response r(k); CHECK(r.code() == m.code, "status is " << r.code() << ", not " << m.code); CHECK(r.reason() == m.reason, "reason is " << show(r.reason()) << ", not " << show(m.reason)); CHECK(r.version() == std::make_pair(m.ma, m.mi), "version " << r.version().first << "." << r.version().second); fields(r.head(), m, s, "response"); if (m.readbody) { std::string b = readall(s, r.body(), m.data.size()); CHECK(b == m.data, "body of " << m.data.size() << " bytes arrives as " << b.size() << (b.size() == m.data.size() ? " different bytes" : " bytes")); } }
}
struct Off { ~Off() { net::src = nullptr; } };
static void exchange(Src &s, Ctx &c) {   // sent by the library, read by the library
  net::reset(); net::init(); Off off; net::Server sv; Sock a(new stream_socket); CHECK(a->connect("h", sv.s.port()), "connect"); Sock b(sv.accept()); net::src = &s;
  size_t n = 1 + s.choose(4); c.nt(n > 1); std::deque<Msg> q[2]; size_t left = n, bytes = 0;
  while (left || !q[0].empty() || !q[1].empty()) {
    int d = (int)s.choose(2); if (!left && q[d].empty()) d = 1 - d; bool canread = !q[d].empty();
    if (left && (!canread || s.coin()) && bytes < 40000) {
      Msg m = msg(s, s.coin()); left--; NOTE((d ? "b->a " : "a->b ") << (m.req ? m.method + " " + m.uri : std::to_string(m.code) + " " + m.reason) << " headers " << m.head.size() << " body " << m.data.size()); bool cl = m.data.empty() ? s.coin() : s.coin(1, 3); if (m.data.empty() && !cl) m.readbody = false; bytes += m.data.size() + 2000;
      auto fill = [&](http::header &h, std::iostream &o) { size_t gone = s.coin(1, 3) ? s.choose(m.head.size() + 1) : 9999, at = 0; for (auto &x : m.head) { if (at++ == gone) h["X-GONE-0"] = "0"; if (s.coin()) h.set(x.first, x.second); else { h[x.first] = "overwritten"; h[low(x.first)] = x.second; } } if (s.coin(1, 4)) { h["X-Gone-1"] = "1"; h.erase("x-gone-1"); } if (gone < m.head.size()) h.erase("x-gone-0"); if (cl) h["content-length"] = std::to_string(m.data.size()); if (s.coin()) o << m.data; else o.write(m.data.data(), m.data.size()); };
      if (m.req) { http::request r(m.method, uri(m.uri), m.ma, m.mi); fill(r.head(), r.body()); r.send(d ? b : a); } else { http::response r(m.code, m.reason, m.ma, m.mi); fill(r.head(), r.body()); r.send(d ? b : a); }
      q[d].push_back(m);
    } else if (canread) { Msg m = q[d].front(); q[d].pop_front(); bytes -= std::min(bytes, m.data.size() + 2000); check_read(s, d ? a : b, m); }
    else if (!left) { if (q[0].empty() && q[1].empty()) break; }
    else if (bytes >= 40000 && q[0].empty() && q[1].empty()) bytes = 0;
  }
  net::src = nullptr; a.reset(); CHECK(b->getc() == EOF, "bytes are left over after the last message");
  c.label("short transfers", net::shorts);
}
static std::string chunked(Src &s, Ctx &c, const std::string &d) {
  std::string r; size_t p = 0; while (p < d.size()) { size_t n = s.coin(1, 3) ? d.size() - p : 1 + s.choose(std::min<size_t>(d.size() - p, s.coin() ? 10 : 9000)); char h[32]; snprintf(h, sizeof h, s.coin() ? "%zx" : "%zX", n); std::string hs = h; if (s.coin(1, 8)) hs = "00" + hs; r += hs; if (s.coin(1, 5)) { r += s.pick<std::string>({";ext=1", " ; a=\"b\"", ";x"}); c.label("chunk extension"); } r += "\r\n"; r += d.substr(p, n) + "\r\n"; p += n; }
  r += s.coin(1, 5) ? "000" : "0"; r += "\r\n"; if (s.coin(1, 4)) { r += "Trailer: x\r\n"; c.label("trailer"); } return r + "\r\n";
}
static std::string render(Src &s, Ctx &c, Msg &m, bool last) {   // a message as another implementation might send it
  std::string r = m.req ? m.method + " " + m.uri + " HTTP/" + std::to_string(m.ma) + "." + std::to_string(m.mi) : "HTTP/" + std::to_string(m.ma) + "." + std::to_string(m.mi) + " " + std::to_string(m.code) + (m.reason.empty() && s.coin() ? "" : " " + m.reason); r += "\r\n";
  int kind = (int)s.choose(last ? 3 : 2); std::vector<std::string> lines;
  for (auto &x : m.head) { std::string l = x.first + (s.coin(1, 12) ? s.pick<std::string>({" ", "  ", "\t", " \t "}) : "") + ":"; size_t sp = s.choose(3); for (size_t i = 0; i < sp; i++) l += s.ch(" \t"); if (s.coin(1, 6) && !x.second.empty()) { // folded after a word: the line break and white space read as one space
        size_t p = x.second.find(' '); if (p != std::string::npos && p > 0 && p + 1 < x.second.size() && x.second[p + 1] != ' ' && x.second[p + 1] != '\t' && x.second[p - 1] != ' ' && x.second[p - 1] != '\t') { l += x.second.substr(0, p) + "\r\n" + s.pick<std::string>({" ", "  ", " \t "}) + x.second.substr(p + 1); c.label("folded header"); lines.push_back(l); continue; } } l += x.second; lines.push_back(l); }
  std::string b; if (kind == 0) { lines.insert(lines.begin() + s.choose(lines.size() + 1), s.pick<std::string>({"Content-Length: ", "content-length:", "CONTENT-LENGTH: "}) + std::to_string(m.data.size())); b = m.data; c.label("declared length"); }
  else if (kind == 1) { lines.insert(lines.begin() + s.choose(lines.size() + 1), s.pick<std::string>({"Transfer-Encoding: chunked", "transfer-encoding: Chunked", "TRANSFER-ENCODING:chunked"})); b = chunked(s, c, m.data); c.label("chunked"); } else { b = m.data; c.label("until close"); }
  for (auto &l : lines) r += l + "\r\n"; return r + "\r\n" + b;
}
static void peer(Src &s, Ctx &c) {   // sent by another implementation
  net::reset(); net::init(); Off off; net::Port p; Sock a(new stream_socket); CHECK(a->connect("h", p.n), "connect"); int fd = p.take(); struct Cl { int f; ~Cl() { ::close(f); } } cl{fd};
  size_t n = 1 + s.choose(3); c.nt(n > 1); std::vector<Msg> ms; std::string wire; for (size_t i = 0; i < n; i++) { Msg m = msg(s, s.coin()); for (auto &h : m.head) { size_t q; while ((q = h.second.find('\t')) != std::string::npos) h.second[q] = 'T'; while ((q = h.second.find("  ")) != std::string::npos) h.second.erase(q, 1); } ms.push_back(m); wire += render(s, c, ms.back(), i + 1 == n); }
  NOTE("wire " << show(wire, 2000)); net::raw_put(fd, wire); ::shutdown(fd, SHUT_WR); net::src = &s; for (size_t i = 0; i < n; i++) check_read(s, a, ms[i]); CHECK(a->getc() == EOF, "bytes are left over after the last message"); c.label("short transfers", net::shorts);
}
// a map from names (ignoring case) to values, in the order of their first appearance
static void headers(Src &s, Ctx &c) {
  http::header h; std::vector<std::pair<std::string, std::string>> m; std::vector<std::string> names = {"A", "Host", "x-test", "X_", "B1", "Ab"}; for (int i = 0; i < 3; i++) names.push_back(token(s, 5)); size_t n = 1 + s.size(20); c.nt(n > 5);
  auto name = [&] { std::string k = names[s.choose(names.size())]; for (auto &ch : k) if (s.coin(1, 3)) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch)); return k; }; auto find = [&](const std::string &k) { size_t i = 0; std::string lk = low(k); while (i < m.size() && low(m[i].first) != lk) i++; return i; };
  for (size_t t = 0; t < n; t++) { std::string k = name(), v = s.bytes(4); size_t i = find(k); switch (s.choose(7)) {
      case 0: case 1: NOTE("set " << k); h.set(k, v); if (i == m.size()) m.push_back({k, v}); else m[i].second = v; break; case 2: NOTE("[] = " << k); h[k] = v; if (i == m.size()) m.push_back({k, v}); else m[i].second = v; break; case 3: case 4: NOTE("erase " << k); h.erase(k); if (i < m.size()) m.erase(m.begin() + i); break;
      case 5: { NOTE("read " << k); const http::header &r = h; CHECK(r[k] == (i < m.size() ? m[i].second : ""), "header " << k << " is " << show(r[k])); break; } default: if (i < m.size()) { NOTE("get " << k); CHECK(h.get(k) == m[i].second, "header " << k << " is " << show(h.get(k))); } }
    for (auto &q : names) CHECK(h.has_key(q) == (find(q) < m.size()), "has_key(" << q << ") is " << h.has_key(q)); std::vector<std::pair<std::string, std::string>> got(h.begin(), h.end()); CHECK(got == m, "after " << t + 1 << " operations there are " << got.size() << " headers, not the " << m.size() << " expected (or others)"); }
  std::string text, nl = s.coin() ? "\r\n" : "\n"; for (auto &x : m) { for (auto &ch : x.second) if ((unsigned char)ch < 0x21) ch = '.'; text += x.first + ": " + x.second + nl; } std::string rest = s.bytes(10); std::istringstream in(text + nl + rest); http::header g(in); std::vector<std::pair<std::string, std::string>> got(g.begin(), g.end()); CHECK(got == m, "read from a stream there are " << got.size() << " headers, not " << m.size() << " (or others)"); std::string left((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECK(left == rest, "reading headers from a stream leaves " << show(left) << " instead of " << show(rest));
}
static void large(Src &s, Ctx &c) {   // a declared length beyond 2^31: what has arrived when the connection ends is delivered
  net::reset(); net::init(); Off off; net::Port p; Sock a(new stream_socket); CHECK(a->connect("h", p.n), "connect"); int fd = p.take(); struct Cl { int f; ~Cl() { ::close(f); } } cl{fd}; uint64_t n = s.pick<uint64_t>({0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x10000000000}) + s.choose(5); std::string d = body(s); bool req = s.coin(); NOTE("declared " << n << ", " << d.size() << " bytes arrive"); c.nt(!d.empty()); net::raw_put(fd, std::string(req ? "PUT /x HTTP/1.1" : "HTTP/1.1 200 OK") + "\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n" + d); ::shutdown(fd, SHUT_WR); net::src = &s; std::string g; if (req) { http::request r(a); g = readall(s, r.body(), 0); } else { http::response r(a); g = readall(s, r.body(), 0); } CHECK(g == d, "of " << d.size() << " bytes of a body declared with " << n << ", " << g.size() << " are delivered (or others)");
}
static std::string canned;
static void stream(Src &s, Ctx &c) {   // the client stream over a URL
  net::reset(); net::init(); Off off; net::Port p(80), p2(8080); Msg m = msg(s, false); m.code = 200; for (auto &h : m.head) { size_t q; while ((q = h.second.find('\t')) != std::string::npos) h.second[q] = 'T'; while ((q = h.second.find("  ")) != std::string::npos) h.second.erase(q, 1); } canned = render(s, c, m, true); net::on_connect = [](int fd) { net::raw_put(fd, canned); ::shutdown(fd, SHUT_WR); };
  bool alt = s.coin(), user = s.coin(); std::string pq = pathq(s), url = std::string("http://") + (user ? "me:pw@" : "") + "example.com" + (alt ? ":8080" : "") + pq; NOTE(url << " <- " << show(canned, 500)); c.nt(!m.data.empty()); net::src = &s;
  http::httpstream st(url); fields(st.head(), m, s, "stream"); std::string got; if (s.coin()) { int ch; while ((ch = st.get()) != EOF) got += (char)ch; } else { char b[333]; for (;;) { st.read(b, sizeof b); got.append(b, st.gcount()); if (!st) break; } } CHECK(got == m.data, "the stream delivers " << got.size() << " bytes of " << m.data.size());
  net::src = nullptr; int fd = alt ? p2.take() : p.take(); std::string rq = net::raw_get(fd); ::close(fd); size_t e = rq.find("\r\n"); std::string line = rq.substr(0, e), hd = low(rq.substr(e)); size_t a = line.find(' '), b = line.rfind(' '); CHECK(line.substr(0, a) == "GET" && line.substr(b + 1) == "HTTP/1.1", "request line " << show(line)); uri got_uri(line.substr(a + 1, b - a - 1)); CHECK(got_uri.path() == uri(url).path() && got_uri.query() == uri(url).query(), "asked for " << show(line)); CHECK(hd.find("\r\nhost: example.com") != std::string::npos, "no Host header: " << show(rq)); if (user) CHECK(rq.find("Basic bWU6cHc=") != std::string::npos, "no authorization: " << show(rq));
}
static void anybytes(Src &s, Ctx &c) {   // whatever arrives, the reader ends with a message or an exception
  net::reset(); net::init(); Off off; net::Port p; Sock a(new stream_socket); CHECK(a->connect("h", p.n), "connect"); int fd = p.take(); struct Cl { int f; ~Cl() { ::close(f); } } cl{fd};
  std::string w; bool req = s.coin(); if (s.coin(1, 6)) w = s.bytes(60); else { Msg m = msg(s, req); if (m.data.size() > 300) m.data.resize(300); w = render(s, c, m, true); }
  for (size_t k = s.choose(5); k--;) { size_t q = s.choose(w.size() + 1); switch (s.choose(5)) { case 0: w.insert(q, 1, s.ch("\r\n: \t;-0fF9\0\xff%")); break; case 1: if (q < w.size()) w.erase(q, 1 + s.choose(5)); break; case 2: w.resize(q); break; case 3: w.insert(q, s.pick<std::string>({"-1", "-5\r\n", "7fffffff", "ffffffff", "80000000", "99999999999999999999", "\r\n\r\n", "0\r\n", "Content-Length: 5\r\n", "Transfer-Encoding: chunked\r\n"})); break; default: if (q < w.size()) w[q] = s.ch("\r\n: -0f\0\xff%?"); } }
  NOTE("wire " << show(w, 2000)); c.nt(w.size() > 10); net::raw_put(fd, w); ::shutdown(fd, SHUT_WR); net::src = &s; size_t got = 0;
  try { if (req) { http::request r(a); got = readall(s, r.body(), 0).size(); } else { http::response r(a); got = readall(s, r.body(), 0).size(); } c.label("read"); } catch (const Fail &) { throw; } catch (const std::exception &) { c.label("refused"); }
  CHECK(got <= w.size(), "a body of " << got << " bytes out of " << w.size());
}
static void broken(Src &s, Ctx &c) {   // a connection that breaks while a message is sent, and servers that cannot be asked
  net::reset(); net::init(); Off off; if (s.coin(1, 4)) { net::Port p(80); int kind = (int)s.choose(5); std::string pq = pathq(s), url = "http://example.com" + pq; canned = ""; const char *what = "nobody listens"; if (kind == 0) { url = s.pick<std::string>({"https", "ftp", "httpx", "file", "HTTPS"}) + "://example.com" + pq; what = "another scheme"; } else if (kind == 1) url = "http://example.com:81" + pq; else { what = "no proper answer"; canned = kind == 2 ? "" : s.pick<std::string>({"HTTP/1.1", "HTTP/1.1 ", "\r\n", "FTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "200 OK\r\n\r\n", "HTTP 200 OK\r\n\r\n"}); net::on_connect = [](int fd) { net::raw_put(fd, canned); ::shutdown(fd, SHUT_WR); }; } NOTE(url << ": " << what << " " << show(canned)); c.nt(); c.label(what); net::src = &s; try { http::httpstream st(url); FAIL("a stream over " << url << " though " << what << " " << show(canned)); } catch (const http::http_exception &) {} return; }
  Msg m = msg(s, s.coin()); auto put = [&](const Sock &k) { if (m.req) { http::request r(m.method, uri(m.uri), m.ma, m.mi); for (auto &x : m.head) r.head()[x.first] = x.second; r.body() << m.data; r.send(k); } else { http::response r(m.code, m.reason, m.ma, m.mi); for (auto &x : m.head) r.head()[x.first] = x.second; r.body() << m.data; r.send(k); } };
  net::Port p; std::string whole; { Sock k(new stream_socket); CHECK(k->connect("h", p.n), "connect"); put(k); k.reset(); int fd = p.take(); whole = net::raw_get(fd); ::close(fd); } size_t cutat = s.coin(1, 5) ? whole.size() : s.coin() ? s.choose(whole.size()) : whole.size() - 1 - s.choose(std::min<size_t>(whole.size(), 4)); NOTE((m.req ? "request" : "response") << " of " << whole.size() << " bytes with " << m.data.size() << " in the body, the connection takes " << cutat); c.nt(whole.size() > 60);
  Sock k(new stream_socket); CHECK(k->connect("h", p.n), "connect"); net::src = &s; net::budget = (int64_t)cutat; bool thrown = false; try { put(k); } catch (const http::http_exception &) { thrown = true; } net::src = nullptr; net::budget = 0; k.reset(); int fd = p.take(); std::string got = net::raw_get(fd); ::close(fd); net::budget = -1; CHECK(thrown == (cutat < whole.size()), "a message of " << whole.size() << " bytes over a connection that takes " << cutat << (thrown ? " fails" : " is sent without an error")); CHECK(got == whole.substr(0, cutat), "the bytes before the break are not the message's"); c.label(thrown ? "breaks" : "just fits");
}
Suite pbt::suite() {
  Suite u; u.property = "C23";
  u.rule = "Sequences of requests and responses with token methods, targets (origin and absolute form), versions, status codes, reasons, headers (printable, high-bit and inner white space; names matched in changed case) and binary bodies around the buffer sizes, sent and read by the library over one connection, or rendered by the harness with declared length, chunked (any split, extensions, trailers), until close and folded headers; the client stream over a URL; and damaged messages; header maps edited at random against a model and read from streams; bodies declared longer than 2^31. All transfers are cut short or interrupted at random. Non-trivial: several messages / a non-empty body / a damaged message longer than 10 bytes.";
  u.props = {{"exchange", exchange, 15000, 200000, true}, {"peer", peer, 15000, 200000, true}, {"stream", stream, 6000, 60000, false}, {"anybytes", anybytes, 20000, 300000, true}, {"broken", broken, 10000, 150000, true}, {"headers", headers, 15000, 200000, true}, {"large", large, 2000, 20000, false}};
  u.assumptions = {"header lines are shorter than 4096 bytes and values have no white space at their ends", "the body of a message without declared length, not chunked, is read only when the connection ends with it", "each body is read to its end before the next message"};
  return u;
}
