#include "pbt.h"
#include <cmath>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <sstream>
#include <thread>
#include <data/digest/md5.h>
using namespace pbt;
using pfi::data::digest::md5sum;
// RFC 1321, written from the text with the constant table spelt out
static const uint32_t K[64] = {
    0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
    0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
    0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
    0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
static void block(uint32_t h[4], const uint32_t *w) {
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
  for (int i = 0; i < 64; i++) {
    uint32_t f; int g, r = i / 16;
    if (r == 0) { f = (b & c) | (~b & d); g = i; } else if (r == 1) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (r == 2) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; }
    f += a + K[i] + w[g]; a = d; d = c; c = b; int s = R[r][i % 4]; b += f << s | f >> (32 - s);
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
template <class At> static std::string rfc1321(uint64_t n, At at) {      // the digest of the n bytes at(0), at(1), ...
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}, w[16]; uint64_t i = 0;
  for (; n - i >= 64; ) { for (int k = 0; k < 16; k++, i += 4) w[k] = (uint32_t)at(i) | (uint32_t)at(i + 1) << 8 | (uint32_t)at(i + 2) << 16 | (uint32_t)at(i + 3) << 24; block(h, w); }
  std::string m; for (; i < n; i++) m += (char)at(i); m += (char)0x80; while (m.size() % 64 != 56) m += '\0'; for (int k = 0; k < 8; k++) m += (char)(n * 8 >> (8 * k));
  for (size_t o = 0; o < m.size(); o += 64) { for (int k = 0; k < 16; k++) { w[k] = 0; for (int b = 3; b >= 0; b--) w[k] = w[k] << 8 | (unsigned char)m[o + k * 4 + b]; } block(h, w); }
  std::string r; for (int k = 0; k < 4; k++) for (int b = 0; b < 4; b++) r += (char)(h[k] >> (8 * b));
  return r;
}
static std::string rfc1321(const std::string &in) { return rfc1321(in.size(), [&](uint64_t i) { return (unsigned char)in[i]; }); }
static std::string hex(const std::string &b) { std::string r; for (unsigned char x : b) { r += "0123456789abcdef"[x >> 4]; r += "0123456789abcdef"[x & 15]; } return r; }
static std::string raw(const md5sum &m) { std::string r; for (uint32_t x : {m.a, m.b, m.c, m.d}) for (int k = 0; k < 4; k++) r += (char)(x >> (8 * k)); return r; }
static void digest(Src &s, Ctx &c) {
  std::string b;
  switch (s.choose(5)) { case 0: b = s.bytes(20); break; case 1: { size_t n = s.choose(40) * 64 + s.pick<size_t>({0, 1, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63}); b.resize(n); uint64_t x = s.u64(); for (auto &ch : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = (char)(x >> 56); } c.label("at a block or padding boundary"); break; }
    case 3: if (s.coin(1, 8)) { b = s.blob(s.edge_len(300000)); break; } b = s.bytes(300); break;
    case 2: b = std::string(s.choose(300), s.ch("\0\377a\200")); break; default: b = s.bytes(300); }
  NOTE("length " << b.size() << " data " << show(b, 80)); c.nt(b.size() > 0);
  std::string want = rfc1321(b);
  CHECK(raw(md5sum(b)) == want, "digest of the string is " << hex(raw(md5sum(b))) << ", not " << hex(want));
  std::istringstream is(b); md5sum m2(is); CHECK(raw(m2) == want, "digest of the stream is " << hex(raw(m2)));
  std::list<char> l(b.begin(), b.end()); md5sum m3(l.begin(), l.end()); CHECK(raw(m3) == want, "digest of the iterator range is " << hex(raw(m3)));
  const unsigned char *p = (const unsigned char *)b.data(); md5sum m4(p, p + b.size()); CHECK(raw(m4) == want, "digest of unsigned bytes is " << hex(raw(m4)));
}
static void print(Src &s, Ctx &c) {
  uint32_t v[4]; for (auto &x : v) x = (uint32_t)(s.coin() ? s.uedge(32) : s.choose(0x100000000ull) & 0x0f0f0f0f);
  md5sum m(v[0], v[1], v[2], v[3]); std::string want = hex(raw(m)); std::ostringstream o; std::string st;
  if (s.coin()) { o << std::uppercase; st += " uppercase"; } if (s.coin()) { o << std::showbase; st += " showbase"; }
  if (s.coin()) { o << std::showpos; st += " showpos"; }
  switch (s.choose(4)) { case 1: o << std::left; st += " left"; break; case 2: o << std::internal; st += " internal"; break; case 3: o << std::right; st += " right"; }
  switch (s.choose(3)) { case 1: o << std::oct; st += " oct"; break; case 2: o << std::hex; st += " hex"; }
  if (s.coin()) { o << std::setfill('*'); st += " fill"; } if (s.coin(1, 4)) { o << std::setprecision(3); }
  std::ios::fmtflags f0 = o.flags(); char fill0 = o.fill();
  NOTE("stream state" << st << " digest " << want); c.nt(!st.empty());
  o << m; CHECK(o.str() == want, "prints " << o.str() << " instead of " << want << " (stream state:" << st << ")");
  CHECK(o.flags() == f0 && o.fill() == fill0, "printing changes the stream's formatting state");
}
static void order(Src &s, Ctx &c) {
  md5sum m[3]; for (auto &x : m) { uint32_t w[4]; for (auto &y : w) y = s.pick<uint32_t>({0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu}); x = md5sum(w[0], w[1], w[2], w[3]); }
  if (s.coin(1, 3)) m[1] = m[0];
  c.nt(raw(m[0]) != raw(m[1]));
  for (auto &x : m) for (auto &y : m) {
    bool eq = raw(x) == raw(y); CHECK((int)(x < y) + (int)(y < x) == (eq ? 0 : 1), "ordering of " << hex(raw(x)) << " and " << hex(raw(y)));
    for (auto &z : m) if (x < y && y < z) CHECK(x < z, "ordering is not transitive"); }
}
static void threads(Src &s, Ctx &c) {
  size_t n = 2 + s.choose(3); std::vector<std::string> b(n), r(n); for (auto &x : b) x = s.blob(s.edge_len(2000)); NOTE(n << " threads"); c.nt();
  std::vector<std::thread> t; for (size_t i = 0; i < n; i++) t.emplace_back([&, i] { for (int k = 0; k < 20; k++) { std::string x = raw(md5sum(b[i])); if (k == 0 || x != r[i]) r[i] += x; } }); for (auto &x : t) x.join();
  for (size_t i = 0; i < n; i++) CHECK(r[i] == rfc1321(b[i]), "digest computed by one of " << n << " threads at once differs");
}
// Inputs so long that the length field needs its upper word: the bytes come from an iterator that makes them up.
struct Gen { uint64_t i, k; typedef std::input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef const char *pointer; typedef char reference; static unsigned char at(uint64_t i, uint64_t k) { return (unsigned char)((i * k) >> 7 ^ i); } char operator*() const { return (char)at(i, k); } Gen operator++(int) { Gen g = *this; ++i; return g; } Gen &operator++() { ++i; return *this; } bool operator==(const Gen &o) const { return i == o.i; } bool operator!=(const Gen &o) const { return i != o.i; } };
static void made_up(uint64_t n, uint64_t k, Ctx &c) {
  NOTE(n << " bytes"); c.nt(); md5sum m(Gen{0, k}, Gen{n, k}); std::string want = rfc1321(n, [&](uint64_t i) { return Gen::at(i, k); });
  CHECK(raw(m) == want, "digest of " << n << " bytes is " << hex(raw(m)) << ", not " << hex(want));
}
static void huge(Src &s, Ctx &c) { uint64_t n = s.coin(1, 4) ? (1ull << 29) - 1 - s.choose(70) : (1ull << 29) + s.choose(200); made_up(n, s.choose(1000) | 1, c); }
static void vast(Src &s, Ctx &c) { uint64_t n = ((1ull << 29) << s.choose(4)) - 70 + s.choose(200); made_up(n, s.choose(1000) | 1, c); }
Suite pbt::suite() {
  Suite u; u.property = "C12";
  u.rule = "random byte strings of every length around block and padding boundaries, as string, stream and iterator range, against an MD5 written from RFC 1321; digests printed under random stream formatting states; digests computed by several threads at once; digests of inputs around 2^29 and (thorough) 2^32 bytes, whose length needs the upper word of the length field; ordering laws on random digest triples; non-trivial = non-empty input / changed state / distinct digests";
  u.props = {{"digest", digest, 20000, 500000, true}, {"print", print, 20000, 200000, false}, {"order", order, 20000, 200000, false}, {"threads", threads, 1500, 20000, false, true}, {"huge", huge, 4, 16, false}, {"vast", vast, 0, 12, false}}; u.cpu_limit = 200; u.wall_limit = 400;
  return u;
}
