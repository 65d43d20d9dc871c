#include "pbt.h"
#include <network/ipv4.h>
using namespace pbt;
using pfi::network::ipv4_address;
static int comp(Src &s) { return s.coin() ? s.pick<int>({0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255}) : (int)s.choose(256); }
static void faithful(Src &s, Ctx &c) {
  int a[4], b[4]; for (int i = 0; i < 4; i++) { a[i] = comp(s); b[i] = s.coin() ? a[i] : comp(s); } ipv4_address x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]); c.nt();
  std::string t = std::to_string(a[0]) + "." + std::to_string(a[1]) + "." + std::to_string(a[2]) + "." + std::to_string(a[3]); NOTE(t);
  CHECK(x.to_string() == t, "prints as " << x.to_string() << ", not " << t); ipv4_address z(t); CHECK(z == x && !(z != x) && z.to_string() == t, t << " reads as " << z.to_string());
  bool eq = true, lt = false; for (int i = 0; i < 4; i++) if (a[i] != b[i]) { eq = false; lt = a[i] < b[i]; break; }
  CHECK((x == y) == eq && (x != y) == !eq, "equality of " << t << " and " << y.to_string()); CHECK((x < y) == lt && (y < x) == (!eq && !lt), "order of " << t << " and " << y.to_string());
  ipv4_address w(x); w = y; CHECK(w == y && ipv4_address(x) == x, "copies"); CHECK(ipv4_address() == ipv4_address::any && ipv4_address::any.to_string() == "0.0.0.0" && ipv4_address::loopback.to_string() == "127.0.0.1" && ipv4_address::broadcast.to_string() == "255.255.255.255" && ipv4_address::none == ipv4_address(255, 255, 255, 255), "named addresses");
}
static void text(Src &s, Ctx &c) {
  std::string t;
  switch (s.choose(4)) { case 0: t = s.over("0123456789..", 16); break; case 1: t = s.bytes(12); break; default: { int n = s.coin(1, 6) ? 3 + (int)s.choose(3) : 4; for (int i = 0; i < n; i++) { if (i) t += "."; t += s.coin(1, 5) ? std::to_string(s.uedge(40)) : std::to_string(comp(s)); } } }
  for (size_t k = s.choose(3); k--;) { size_t p = s.choose(t.size() + 1); switch (s.choose(3)) { case 0: t.insert(p, 1, s.ch(". 0x9-+a\t\0,:\n")); break; case 1: if (p < t.size()) t.erase(p, 1); break; default: if (p < t.size()) t[p] = s.ch(". 0x9-+a\0\377,"); } }
  // reference: four groups of digits, each at most 255
  std::vector<std::string> g(1); for (char ch : t) if (ch == '.') g.push_back(""); else g.back() += ch; bool ok = g.size() == 4, zeros = false; unsigned v[4] = {};
  for (size_t i = 0; ok && i < 4; i++) { if (g[i].empty()) ok = false; unsigned long n = 0; for (char ch : g[i]) { if (ch < '0' || ch > '9') { ok = false; break; } n = std::min(1000ul, n * 10 + (ch - '0')); } if (n > 255) ok = false; v[i] = n; if (g[i].size() > 1 && g[i][0] == '0') zeros = true; }
  NOTE(show(t)); c.nt(!t.empty()); ipv4_address x(t); if (!ok) { c.label("not an address"); CHECK(x == ipv4_address::none, show(t) << " reads as " << x.to_string()); return; }
  ipv4_address w(v[0], v[1], v[2], v[3]); if (zeros) { c.label("leading zeros"); CHECK(x == w || x == ipv4_address::none, show(t) << " reads as " << x.to_string()); return; } c.label("an address"); CHECK(x == w, show(t) << " reads as " << x.to_string());
}
Suite pbt::suite() {
  Suite u; u.property = "C27";
  u.rule = "Addresses with edge-biased components, compared in pairs that share prefixes; texts made of digit groups (also huge ones), dots and damage at random places, against a digit-group reference. Non-trivial: any pair; non-empty text.";
  u.props = {{"faithful", faithful, 60000, 2000000, false}, {"text", text, 60000, 2000000, true}};
  u.assumptions = {"numbers with leading zeros may be read as decimal or refused"};
  return u;
}
