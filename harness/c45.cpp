#include "pbt.h"
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <lang/cast.h>
#include <system/endian_util.h>
using namespace pbt;
using pfi::lang::lexical_cast; namespace en = pfi::system::endian;
static std::string dec(__int128 v) { if (v == 0) return "0"; bool n = v < 0; std::string r; if (n) v = -v; while (v) { r += (char)('0' + (int)(v % 10)); v /= 10; } if (n) r += '-'; std::reverse(r.begin(), r.end()); return r; }
template <class T> static void integer(Src &s, Ctx &c, const char *nm) {
  T v = std::is_signed<T>::value ? (T)s.i64() : (T)s.uedge(64); NOTE(nm << " " << dec(v)); c.nt(v > 9 || v < 0);
  std::string t = lexical_cast<std::string>(v); CHECK(t == dec(v), nm << " " << dec(v) << " becomes " << show(t)); CHECK(lexical_cast<T>(t) == v, nm << " read back as " << dec(lexical_cast<T>(t))); CHECK(lexical_cast<T>(v) == v, "cast to its own type"); CHECK(lexical_cast<T>(t.c_str()) == v, "from a C string");
  // text that is no such value
  __int128 big = (__int128)std::numeric_limits<T>::max() + 1 + (__int128)s.choose(1000); bool th = false; try { lexical_cast<T>(dec(big)); } catch (const std::bad_cast &) { th = true; } CHECK(th, dec(big) << " accepted as " << nm);
  if (std::is_signed<T>::value) { th = false; __int128 lo = (__int128)std::numeric_limits<T>::min() - 1 - (__int128)s.choose(1000); try { lexical_cast<T>(dec(lo)); } catch (const std::bad_cast &) { th = true; } CHECK(th, dec(lo) << " accepted as " << nm); }
  std::string junk = s.coin(1, 3) ? s.over(" \t\n", 3) : s.over("xyz.,;:", 3) + std::string(s.coin() ? "" : "5"); if (junk.find_first_not_of(" \t\n5") == std::string::npos && junk.find('5') != std::string::npos) junk = "z5";
  th = false; try { lexical_cast<T>(junk); } catch (const std::bad_cast &) { th = true; } CHECK(th, show(junk) << " accepted as " << nm);
  th = false; try { lexical_cast<T>(junk.c_str()); } catch (const std::bad_cast &) { th = true; } CHECK(th, "C string " << show(junk) << " accepted as " << nm); th = false; try { lexical_cast<T>(dec(big).c_str()); } catch (const std::bad_cast &) { th = true; } CHECK(th, "C string " << dec(big) << " accepted as " << nm);
  if (v < 0) { th = false; try { lexical_cast<unsigned char>(s.coin() ? std::string() : std::string(" ")); } catch (const std::bad_cast &) { th = true; } CHECK(th, "blank text accepted as a character"); }
}
struct Pt { int x, y; bool operator==(const Pt &o) const { return x == o.x && y == o.y; } };   // a type known only by its stream operators
static std::ostream &operator<<(std::ostream &o, const Pt &p) { return o << '<' << p.x << ',' << p.y << '>'; }
static std::istream &operator>>(std::istream &i, Pt &p) { char a = 0, b = 0, d = 0; Pt q = {0, 0}; i >> a >> q.x >> b >> q.y >> d; if (i && (a != '<' || b != ',' || d != '>')) i.setstate(std::ios::failbit); if (i) p = q; return i; }
template <class T> static void floating(Src &s, Ctx &c, const char *nm) {
  T v = (T)(s.coin() ? s.finite() : s.range(-4000000, 4000000) / 64.0); std::ostringstream o; o << v; NOTE(nm << " " << o.str()); c.nt(v != 0);
  std::string t = lexical_cast<std::string>(v); CHECK(t == o.str(), nm << " " << o.str() << " becomes " << show(t)); CHECK(lexical_cast<T>(v) == v, "cast to its own type");
  std::istringstream i(t); T w; if (i >> w) CHECK(lexical_cast<T>(t) == w && lexical_cast<T>(t.c_str()) == w, nm << " read back as " << lexical_cast<T>(t) << " from " << t);
}
static void lexical(Src &s, Ctx &c) {
  switch (s.choose(15)) {
    case 12: floating<double>(s, c, "double"); break; case 13: floating<float>(s, c, "float"); break; case 14: { Pt p = {(int)s.i64(), (int)s.range(-9, 9)}; std::string t = "<" + std::to_string(p.x) + "," + std::to_string(p.y) + ">"; CHECK(lexical_cast<std::string>(p) == t, "a value of another type becomes " << show(lexical_cast<std::string>(p)) << ", not " << t); CHECK(lexical_cast<Pt>(t) == p && lexical_cast<Pt>(p) == p && lexical_cast<Pt>(t.c_str()) == p, "a value of another type read back"); std::string j = t; j.erase(s.choose(j.size()), 1 + s.choose(3)); std::istringstream is(j); Pt w; if (!(is >> w)) { bool th = false; try { lexical_cast<Pt>(j); } catch (const std::bad_cast &) { th = true; } CHECK(th, show(j) << " accepted"); } c.label("user-defined type"); c.nt(); break; }
    case 0: integer<short>(s, c, "short"); break; case 1: integer<unsigned short>(s, c, "unsigned short"); break; case 2: integer<int>(s, c, "int"); break; case 3: integer<unsigned>(s, c, "unsigned"); break; case 4: integer<long>(s, c, "long"); break;
    case 5: integer<unsigned long>(s, c, "unsigned long"); break; case 6: integer<long long>(s, c, "long long"); break; case 7: integer<unsigned long long>(s, c, "unsigned long long"); break;
    case 8: { bool b = s.coin(); std::string t = lexical_cast<std::string>(b); CHECK(t == (b ? "1" : "0"), "bool becomes " << show(t)); CHECK(lexical_cast<bool>(t) == b, "bool read back"); bool th = false; try { lexical_cast<bool>(std::string(s.coin() ? "2" : "true")); } catch (const std::bad_cast &) { th = true; } CHECK(th, "accepted as bool"); c.nt(b); break; }
    case 9: { char ch = (char)s.choose(256); NOTE("char " << (int)ch); std::string t = lexical_cast<std::string>(ch); CHECK(t == std::string(1, ch), "char becomes " << show(t)); if (!(ch == ' ' || (ch >= 9 && ch <= 13))) CHECK(lexical_cast<char>(t) == ch, "char read back as " << (int)lexical_cast<char>(t)); bool th = false; try { lexical_cast<char>(std::string()); } catch (const std::bad_cast &) { th = true; } CHECK(th, "empty text accepted as char"); c.nt(); break; }
    case 10: { std::string t = s.coin() ? s.over(" a\t\nb", s.coin(1, 10) ? 400 : 8) : s.bytes(s.coin(1, 10) ? 6000 : 12); NOTE("text " << show(t)); CHECK(lexical_cast<std::string>(t) == t, "text becomes " << show(lexical_cast<std::string>(t))); if (t.find('\0') == std::string::npos) CHECK(lexical_cast<std::string>(t.c_str()) == t, "C string becomes " << show(lexical_cast<std::string>(t.c_str()))); c.nt(t.size() > 1); break; }
    default: { int v = (int)s.range(-100000, 100000); NOTE("int " << v); CHECK(lexical_cast<long long>(v) == v && lexical_cast<double>(v) == v, "int to wider types"); double d = s.range(-4000, 4000) / 8.0; CHECK(lexical_cast<double>(lexical_cast<std::string>(d)) == d, "short decimal " << d << " read back as " << lexical_cast<double>(lexical_cast<std::string>(d))); c.nt(v > 9); }
  }
}
template <class T> static void bytes1(Src &s, Ctx &c, const char *nm) {
  unsigned char b[sizeof(T)]; for (auto &x : b) x = (unsigned char)(s.coin(1, 4) ? s.pick<int>({0, 0x7f, 0x80, 0xff}) : s.choose(256)); T v; memcpy(&v, b, sizeof v); NOTE(nm << " bytes " << show(std::string((char *)b, sizeof b))); c.nt(sizeof(T) > 1);
  unsigned char rv[sizeof(T)]; std::reverse_copy(b, b + sizeof b, rv); T r = en::reverse(v); CHECK(memcmp(&r, rv, sizeof r) == 0, nm << " reversed is " << show(std::string((char *)&r, sizeof r))); T rr = en::reverse(r); CHECK(memcmp(&rr, b, sizeof r) == 0, nm << " reversed twice");
  const uint16_t one = 1; bool little = *(const unsigned char *)&one == 1; CHECK(en::is_little() == little && en::is_big() == !little, "byte order of the machine");
  T tl = en::to_little(v), tb = en::to_big(v); const unsigned char *wl = little ? b : rv, *wb = little ? rv : b; CHECK(memcmp(&tl, wl, sizeof v) == 0, nm << " to little endian"); CHECK(memcmp(&tb, wb, sizeof v) == 0, nm << " to big endian"); T fl = en::from_little(tl), fb = en::from_big(tb); CHECK(memcmp(&fl, b, sizeof v) == 0 && memcmp(&fb, b, sizeof v) == 0, nm << " back");
}
struct P2 { char x[2]; }; struct P4 { short x[2]; }; struct P3 { char x[3]; }; struct P12 { int x[3]; }; struct P16 { long x[2]; };
static void order(Src &s, Ctx &c) {
  switch (s.choose(20)) {
    case 0: bytes1<char>(s, c, "char"); break; case 1: bytes1<signed char>(s, c, "signed char"); break; case 2: bytes1<unsigned char>(s, c, "unsigned char"); break; case 3: bytes1<short>(s, c, "short"); break; case 4: bytes1<unsigned short>(s, c, "unsigned short"); break; case 5: bytes1<int>(s, c, "int"); break; case 6: bytes1<unsigned>(s, c, "unsigned"); break;
    case 7: bytes1<long>(s, c, "long"); break; case 8: bytes1<unsigned long>(s, c, "unsigned long"); break; case 9: bytes1<long long>(s, c, "long long"); break; case 10: bytes1<unsigned long long>(s, c, "unsigned long long"); break; case 11: bytes1<float>(s, c, "float"); break; case 12: bytes1<double>(s, c, "double"); break; case 13: bytes1<P3>(s, c, "3-byte value"); break; case 14: bytes1<P12>(s, c, "12-byte value"); break; case 15: bytes1<P16>(s, c, "16-byte value"); break; case 16: bytes1<char16_t>(s, c, "char16_t"); break; case 17: bytes1<P2>(s, c, "2-byte value"); break; case 18: bytes1<P4>(s, c, "4-byte value"); break;
    default: { std::string t = s.bytes(20), r(t.rbegin(), t.rend()), x = t; en::reverse(&x[0], (int)x.size()); CHECK(x == r, "reverse of " << show(t) << " is " << show(x)); c.nt(t.size() > 1); }
  }
}
Suite pbt::suite() {
  Suite u; u.property = "C45";
  u.rule = "edge-biased values of every integer type, bool, char, floating-point types, a user-defined type and text cast to text, compared with an independent decimal conversion and cast back; out-of-range and foreign text; random byte patterns of 20 types and sizes reversed and converted between byte orders, compared with reversing the bytes; non-trivial = 2+ digits / 2+ bytes";
  u.props = {{"lexical", lexical, 60000, 1000000, true}, {"order", order, 60000, 1000000, true}};
  u.assumptions = {"characters read back from text are not white space"};
  return u;
}
