#include "pbt.h"
#include <arpa/inet.h>
#include <network/uri.h>
using namespace pbt;
using pfi::network::uri; using pfi::network::uri_encode; using pfi::network::uri_decode;
struct U { bool ok = false; std::string scheme, user, host, port, path, query, frag; bool hasauth = false; };
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool xdig(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool in(char c, const char *set) { return c && strchr(set, c); }
static bool unres(char c) { return alpha(c) || digit(c) || in(c, "-._~"); }
static bool sub(char c) { return in(c, "!$&'()*+,;="); }
static bool chars(const std::string &s, const char *extra) { for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%') { if (i + 2 >= s.size() || !xdig(s[i + 1]) || !xdig(s[i + 2])) return false; i += 2; } else if (!unres(s[i]) && !sub(s[i]) && !in(s[i], extra)) return false; } return true; }
// RFC 3986 by appendix B: cut at the delimiters, then check every component's characters
static U refparse(const std::string &t) {
  U u; if (t.find('\0') != std::string::npos) return u; std::string r = t; size_t p = r.find('#'); bool f = p != std::string::npos; if (f) { u.frag = r.substr(p + 1); r.resize(p); }
  p = r.find('?'); if (p != std::string::npos) { u.query = r.substr(p + 1); r.resize(p); }
  p = r.find_first_of(":/"); if (p != std::string::npos && r[p] == ':') { u.scheme = r.substr(0, p); r.erase(0, p + 1); if (u.scheme.empty() || !alpha(u.scheme[0])) return u; for (char c : u.scheme) if (!alpha(c) && !digit(c) && !in(c, "+-.")) return u; }
  if (r.compare(0, 2, "//") == 0) {
    u.hasauth = true; p = r.find('/', 2); std::string a = r.substr(2, p == std::string::npos ? p : p - 2); r = p == std::string::npos ? "" : r.substr(p);
    p = a.find('@'); if (p != std::string::npos) { u.user = a.substr(0, p); a.erase(0, p + 1); if (!chars(u.user, ":")) return u; }
    if (!a.empty() && a[0] == '[') {
      p = a.find(']'); if (p == std::string::npos) return u; std::string lit = a.substr(1, p - 1); u.host = a.substr(0, p + 1); a.erase(0, p + 1);
      unsigned char buf[16]; bool v6 = inet_pton(AF_INET6, lit.c_str(), buf) == 1, vf = false;
      if (lit.size() > 1 && lit[0] == 'v') { size_t k = 1; while (k < lit.size() && xdig(lit[k])) k++; if (k > 1 && k + 1 < lit.size() && lit[k] == '.') { vf = true; for (size_t q = k + 1; q < lit.size(); q++) if (!unres(lit[q]) && !sub(lit[q]) && lit[q] != ':') vf = false; } }
      if (!v6 && !vf) return u;
      if (!a.empty()) { if (a[0] != ':') return u; u.port = a.substr(1); }
    } else { p = a.find(':'); if (p != std::string::npos) { u.port = a.substr(p + 1); a.resize(p); } u.host = a; if (!chars(a, "")) return u; }
    for (char c : u.port) if (!digit(c)) return u;
  }
  u.path = r; if (!chars(r, ":@/") || !chars(u.query, ":@/?") || !chars(u.frag, ":@/?")) return u;
  u.ok = true; return u;
}
static void compare(const uri &g, const U &w, const char *what) {
  std::string auth = (w.user.empty() ? "" : w.user + "@") + w.host + (w.port.empty() ? "" : ":" + w.port);
#define CMP(f, x) CHECK(g.f() == x, what << ": " #f " is " << show(g.f()) << ", not " << show(x))
  CMP(scheme, w.scheme); CMP(userinfo, w.user); CMP(host, w.host); CMP(port, w.port); CMP(path, w.path); CMP(query, w.query); CMP(fragment, w.frag); CMP(authority, auth);
#undef CMP
}
static std::string pct(Src &s) { std::string r = "%"; r += s.ch("0123456789abcdefABCDEF"); r += s.ch("0123456789abcdefABCDEF"); return r; }
static std::string comp(Src &s, const char *extra, size_t max) { if (s.coin(1, 300)) return s.blob(s.edge_len(5000), "abz019-._~!$&'()*+,;="); std::string r; size_t n = s.size(max), e = strlen(extra); for (size_t i = 0; i < n; i++) switch (s.choose(e ? 6 : 5)) { case 0: case 1: case 2: r += s.ch("abzAZ019-._~"); break; case 3: r += s.ch("!$&'()*+,;="); break; case 4: r += pct(s); break; default: r += extra[s.choose(e)]; } return r; }
static std::string v6(Src &s, bool off = false) {
  auto h = [&] { std::string r; size_t n = 1 + s.choose(4); for (size_t i = 0; i < n; i++) r += s.ch("0123456789abcdefABCDEF"); return r; };
  auto v4 = [&] { std::string r; for (int i = 0; i < 4; i++) r += (i ? "." : "") + (off && s.coin(1, 3) ? s.pick<std::string>({"256", "259", "260", "299", "300", "1000", "2555", "00", "01", "025", ""}) : std::to_string(s.pick<int>({0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255}))); return r; };
  bool tail = s.coin(1, 3); size_t total = tail ? 6 : 8; std::string r;
  if (s.coin(1, 3)) { for (size_t i = 0; i < total; i++) r += (i ? ":" : "") + h(); if (tail) r += ":" + v4(); return r; }
  size_t a = s.choose(total), b = s.choose(total - a); for (size_t i = 0; i < a; i++) r += (i ? ":" : "") + h(); r += "::"; for (size_t i = 0; i < b; i++) r += (i ? ":" : "") + h(); if (tail) r += (b ? ":" : "") + v4(); return r;
}
static std::string host(Src &s, Ctx &c) { switch (s.choose(6)) { case 0: c.label("IPv6"); return "[" + v6(s) + "]"; case 1: c.label("IPvFuture"); { std::string x = comp(s, ":", 6), y; for (size_t i = 0; i < x.size(); i++) if (x[i] == '%') i += 2; else y += x[i]; std::string v = "v"; v += s.ch("1fA9"); if (s.coin()) v += s.ch("0b"); return "[" + v + "." + (y.empty() ? "x" : y) + "]"; } case 2: c.label("IPv4"); return s.pick<std::string>({"1.2.3.4", "127.0.0.1", "255.255.255.255", "1.2.3.4.com", "1.2.3.45x", "256.1.1.1", "1.2.3", "10.0.0.1-a"}); case 3: return "example.com"; case 4: return ""; default: return comp(s, "", 10); } }
static std::string gen(Src &s, Ctx &c) {
  std::string r; int form = (int)s.choose(8);
  if (form < 6) { r += s.ch("hzAZ"); size_t n = s.choose(6); for (size_t i = 0; i < n; i++) r += s.ch("tpsA09+-."); r += ":"; }
  if (form < 5 || form == 6) { r += "//"; if (s.coin(1, 3)) r += comp(s, ":", 8) + "@"; r += host(s, c); if (s.coin(1, 3)) { r += ":"; for (size_t k = s.choose(6); k--;) r += s.ch("0123456789"); } size_t n = s.choose(4); for (size_t i = 0; i < n; i++) r += "/" + comp(s, ":@", 6); }
  else { std::string f = comp(s, form == 5 ? ":@" : "@", 6); size_t n = s.choose(3); std::string rest; for (size_t i = 0; i < n; i++) rest += "/" + comp(s, ":@", 6); if (s.coin()) { r += "/"; r += f.empty() ? "" : f + rest; } else if (!f.empty()) r += f + rest; c.label("without authority"); }
  if (s.coin(1, 3)) r += "?" + comp(s, ":@/?", 10);
  if (s.coin(1, 3)) r += "#" + comp(s, ":@/?", 10);
  return r;
}
static void valid(Src &s, Ctx &c) {
  std::string t = gen(s, c); NOTE("uri " << show(t)); U w = refparse(t); CHECK(w.ok, "harness: generated text is not a URI"); c.nt(t.size() > 8);
  uri g(t); compare(g, w, t.c_str());
  if (!w.scheme.empty() && w.hasauth) { std::ostringstream o; o << g; U w2 = w; if (w2.path.empty()) w2.path = "/"; uri g2(o.str()); compare(g2, w2, ("printed as " + o.str()).c_str()); }
}
static void anytext(Src &s, Ctx &c) {
  std::string t = s.coin(1, 6) ? s.bytes(16) : s.coin(1, 4) ? s.over("ah:/?#[]@%1.vf", 16) : s.coin(1, 8) ? "h://[" + v6(s, true) + "]/" : gen(s, c);
  size_t k = s.choose(3); for (size_t i = 0; i < k; i++) { size_t p = s.choose(t.size() + 1); switch (s.choose(3)) { case 0: t.insert(p, 1, s.ch(":/?#[]@% \"<>\\^`{|}\0\177\200\377v.:0g1")); break; case 1: if (p < t.size()) t.erase(p, 1); break; default: if (p < t.size()) t[p] = s.ch(":/?#[]@% \"<>|\0\300.:f1"); } }
  if (t.find("[V") != std::string::npos) return;
  NOTE("text " << show(t)); U w = refparse(t); c.nt(!w.ok); c.label(w.ok ? "a URI" : "not a URI"); if (!w.ok) w = U();
  uri g(t); compare(g, w, w.ok ? "URI" : "not a URI");
}
static void escapes(Src &s, Ctx &c) {
  std::string b = s.coin(1, 80) ? s.blob(s.edge_len(20000)) : s.bytes(30); NOTE("bytes " << show(b)); c.nt(b.size() > 1); std::string e = uri_encode(b);
  for (size_t i = 0; i < e.size(); i++) { if (e[i] == '%') { CHECK(i + 2 < e.size() && xdig(e[i + 1]) && xdig(e[i + 2]), "bad escape in " << show(e)); i += 2; } else CHECK(unres(e[i]) || e[i] == '+', "character " << show(std::string(1, e[i])) << " in " << show(e)); }
  std::string w; for (char x : b) if (unres(x)) w += x; else if (x == ' ') w += "+"; else { char h[8]; snprintf(h, sizeof h, "%%%02X", (unsigned char)x); w += h; } std::string el; for (char x : e) el += (char)toupper(x); std::string wl; for (char x : w) wl += (char)toupper(x); CHECK(el == wl, "encoded " << show(e) << " not " << show(w));
  CHECK(uri_decode(e) == b, "decoded " << show(uri_decode(e)));
  // any valid escapes, either case
  std::string x, dv; size_t n = s.size(20); for (size_t i = 0; i < n; i++) switch (s.choose(4)) { case 0: x += "+"; dv += " "; break; case 1: { int v = (int)s.choose(256); char h[8]; snprintf(h, sizeof h, s.coin() ? "%%%02X" : "%%%02x", v); x += h; dv += (char)v; break; } default: { char q = s.ch("abz019-_.~&=/"); x += q; dv += q; } } if (s.coin(1, 4)) { std::string cut = s.pick<std::string>({"%", "%4", "%a", "%%", "%+"}); x += cut; dv += cut == "%+" ? "% " : cut; c.label("cut-off escape"); } CHECK(uri_decode(x) == dv, show(x) << " decoded as " << show(uri_decode(x)) << ", not " << show(dv));
}
Suite pbt::suite() {
  Suite u; u.property = "C22";
  u.rule = "URIs generated from the RFC 3986 grammar (all host forms incl. every IPv6 shape, escapes everywhere, with and without scheme and authority) compared component by component with an independent cut-at-delimiters parser (inet_pton for IPv6), printed and parsed again; mutated and arbitrary texts against the same; random byte strings percent-encoded and decoded; non-trivial = longer than 8 characters / not a URI / 2+ bytes";
  u.props = {{"valid", valid, 60000, 1000000, true}, {"anytext", anytext, 60000, 1000000, true}, {"escapes", escapes, 40000, 500000, true}};
  u.assumptions = {"printing is compared for URIs that have scheme and authority; an empty path prints as /, absent and empty query, fragment, user info and port are not distinguished"};
  return u;
}
