#include "pbt.h"
#include <deque>
#include <list>
#include <data/string/utility.h>
#include <data/string/ustring.h>
using namespace pbt;
namespace ps = pfi::data::string;
using ps::ustring;
template <class S> static std::string sh(const S &x) { std::ostringstream o; o << "<"; for (auto ch : x) o << (uint32_t)ch << " "; o << ">"; return o.str(); }
static bool ws(uint32_t ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
template <class S> struct G;
template <> struct G<std::string> { typedef std::string T; static T str(Src &s, size_t max) { if (max > 15 && s.coin(1, 40)) return s.blob(s.edge_len(5000), s.pick<const char *>({" \t\n", "ab, ", "a", "abcdefgh:,"})); return s.coin() ? s.over("ab, :\t\n", max) : s.bytes(max); } static uint32_t cp(char x) { return (unsigned char)x; } };
template <> struct G<ustring> { typedef ustring T; static T str(Src &s, size_t max) { T r; if (max > 15 && s.coin(1, 40)) { std::string b = s.blob(s.edge_len(5000), s.pick<const char *>({" \t\n", "ab, ", "a", "abcdefgh:,"})); return T(b.begin(), b.end()); } size_t n = s.size(max); for (size_t i = 0; i < n; i++) r.push_back(s.coin(1, 3) ? s.codepoint() : s.coin() ? s.pick<uint32_t>({'a', 'b', ',', ':', ' ', '\t', '\n', 0x3000, 0x20, 0x120, 0x10020, 0x10FFFF, 0xffffffffu, 0x80000020u, 0xffffff20u, 0xA0, 0x85}) : (uint32_t)s.choose(0x300)); return r; } static uint32_t cp(uint32_t x) { return x; } };
template <class S> static bool at(const S &t, size_t p, const S &w) { if (p + w.size() > t.size()) return false; for (size_t i = 0; i < w.size(); i++) if (t[p + i] != w[i]) return false; return true; }
template <class S> static std::vector<S> ref_split(const S &t, const S &sep) { std::vector<S> r; S cur; for (size_t i = 0; i < t.size();) if (at(t, i, sep)) { r.push_back(cur); cur = S(); i += sep.size(); } else cur.push_back(t[i++]); r.push_back(cur); return r; }
template <class S> static S ref_join(const std::vector<S> &v, const S &sep) { S r; for (size_t i = 0; i < v.size(); i++) { if (i) for (auto x : sep) r.push_back(x); for (auto x : v[i]) r.push_back(x); } return r; }
template <class S> static void splitjoin(Src &s, Ctx &c) {
  S t = G<S>::str(s, 24), sep; size_t n = 1 + s.choose(3); for (size_t i = 0; i < n; i++) sep.push_back(s.coin(1, 3) && t.size() ? t[s.choose(t.size())] : (typename S::value_type)s.ch(",:a"));
  for (size_t k = s.choose(3); k--;) { size_t p = s.choose(t.size() + 1); t.insert(p, s.coin() ? sep : sep.substr(0, s.choose(sep.size() + 1))); }
  NOTE("text " << sh(t) << " separator " << sh(sep)); c.nt(t.size() > 2);
  std::vector<S> want = ref_split(t, sep), got = ps::split(t, sep); CHECK(got == want, "split gives " << got.size() << " pieces, not " << want.size()); if (want.size() > 1) c.label("several pieces");
  std::list<S> l = ps::split<std::list<S>>(t, sep); CHECK(std::vector<S>(l.begin(), l.end()) == want, "split into a list"); std::deque<S> dq; ps::split(t, sep, std::back_inserter(dq)); CHECK(std::vector<S>(dq.begin(), dq.end()) == want, "split through an iterator");
  S j = ps::join(got, sep); CHECK(j == t, "joined again: " << sh(j)); S j2; ps::join(got, sep, j2); CHECK(j2 == t, "joined (2)"); S j3 = ps::join(l.begin(), l.end(), sep); CHECK(j3 == t, "joined from iterators"); S j4 = got.empty() ? S() : got[0]; ps::join(l.begin(), l.end(), sep, j4); CHECK(j4 == t, "joined (4)");
  typename S::value_type ch = sep[0]; S sep1(1, ch); std::vector<S> w1 = ref_split(t, sep1), g1 = ps::split(t, ch); CHECK(g1 == w1, "split at a character gives " << g1.size() << " pieces, not " << w1.size()); std::list<S> l1 = ps::split<std::list<S>>(t, ch); CHECK(std::vector<S>(l1.begin(), l1.end()) == w1, "split at a character into a list"); CHECK(ps::join(g1, sep1) == t, "split at a character and joined");
  std::vector<S> parts; for (size_t k = s.choose(5); k--;) parts.push_back(G<S>::str(s, 5)); S sp = G<S>::str(s, 3); { S w = ref_join(parts, sp), x = sp; ps::join(parts, x, x); CHECK(x == w, "join into the separator gives " << sh(x)); if (!parts.empty()) { std::vector<S> y = parts; size_t k = s.choose(y.size()); ps::join(y.begin(), y.end(), sp, y[k]); CHECK(y[k] == w, "join into part " << k << " gives " << sh(y[k])); } }
  CHECK(ps::join(parts, sp) == ref_join(parts, sp), "join of " << parts.size() << " parts gives " << sh(ps::join(parts, sp)));
}
template <class S> static void stripp(Src &s, Ctx &c) {
  S t = G<S>::str(s, 16); NOTE("text " << sh(t)); size_t b = 0, e = t.size(); while (b < e && ws(G<S>::cp(t[b]))) b++; size_t e2 = e; while (e2 > b && ws(G<S>::cp(t[e2 - 1]))) e2--; size_t e3 = e; while (e3 > 0 && ws(G<S>::cp(t[e3 - 1]))) e3--;
  c.nt(b || e2 != e); if (b == e && e) c.label("only white space");
  S w = t.substr(b, e2 - b), l = t.substr(b), r = t.substr(0, e3);
  CHECK(ps::strip(t) == w, "strip gives " << sh(ps::strip(t))); CHECK(ps::lstrip(t) == l, "lstrip gives " << sh(ps::lstrip(t))); CHECK(ps::rstrip(t) == r, "rstrip gives " << sh(ps::rstrip(t)));
  S x = t; ps::strip(x, x); CHECK(x == w, "strip in place"); x = t; ps::lstrip(x, x); CHECK(x == l, "lstrip in place"); x = t; ps::rstrip(x, x); CHECK(x == r, "rstrip in place");
}
template <class S> static void rewrite(Src &s, Ctx &c) {
  S t = G<S>::str(s, 20), f = G<S>::str(s, 3), to = G<S>::str(s, 4); if (s.coin() && t.size()) { size_t p = s.choose(t.size()); f = t.substr(p, 1 + s.choose(3)); } if (s.coin(1, 3)) to = f + to;
  NOTE("text " << sh(t) << " from " << sh(f) << " to " << sh(to)); S want; if (f.empty()) want = t; else { std::vector<S> v = ref_split(t, f); want = ref_join(v, to); if (v.size() > 2) c.label("several replacements"); } c.nt(want != t);
  S g = ps::replace(t, f, to); CHECK(g == want, "replace gives " << sh(g) << ", not " << sh(want)); S x = t; ps::replace(x, f, to, x); CHECK(x == want, "replace in place gives " << sh(x));
  x = f; ps::replace(t, x, to, x); CHECK(x == want, "replace into the pattern gives " << sh(x));
  S p = s.coin() ? t.substr(0, s.choose(t.size() + 1)) : s.coin() ? t.substr(s.choose(t.size() + 1)) : G<S>::str(s, 6); if (s.coin(1, 4)) p += t; CHECK(ps::starts_with(t, p) == at(t, 0, p), "starts_with " << sh(p) << " is " << ps::starts_with(t, p)); CHECK(ps::ends_with(t, p) == (p.size() <= t.size() && at(t, t.size() - p.size(), p)), "ends_with " << sh(p) << " is " << ps::ends_with(t, p));
}
template <void (*A)(Src &, Ctx &), void (*B)(Src &, Ctx &)> static void both(Src &s, Ctx &c) { if (s.coin()) { c.label("code-point string"); B(s, c); } else { c.label("byte string"); A(s, c); } }
Suite pbt::suite() {
  Suite u; u.property = "C17";
  u.rule = "random byte strings and code-point strings (wide characters, values whose low byte is a space, overlapping separators) through split/join/strip/replace/affix helpers, compared with direct definitions, including results written into an argument; run under ASan; non-trivial = text changes or has 3+ characters";
  u.props = {{"split", both<splitjoin<std::string>, splitjoin<ustring>>, 30000, 500000, true}, {"strip", both<stripp<std::string>, stripp<ustring>>, 40000, 500000, true}, {"rewrite", both<rewrite<std::string>, rewrite<ustring>>, 40000, 500000, true}};
  u.assumptions = {"white space is that of the C locale; an empty separator yields no pieces and is not generated"};
  return u;
}
