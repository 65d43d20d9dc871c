// typed generators and an independent encoder of the archive format
#ifndef SER_H
#define SER_H
#include "pbt.h"
#include <cstdio>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <data/serialization.h>
#include <data/serialization/unordered_map.h>
#include <data/serialization/unordered_set.h>
#include <data/intern.h>
#include <data/string/ustring.h>
namespace sz = pfi::data::serialization;
typedef std::basic_string<uint32_t> u32s;
struct Rec { int a; std::string b; std::vector<short> c; double d;
  template <class Ar> void serialize(Ar &ar) { ar & a & b & c & d; }
  bool operator==(const Rec &r) const { return a == r.a && b == r.b && c == r.c && memcmp(&d, &r.d, 8) == 0; } };
struct Rec2 { bool f; Rec r; std::map<std::string, Rec> m; std::pair<long, std::string> p; std::list<unsigned char> l;
  template <class Ar> void serialize(Ar &ar) { ar & MEMBER(f) & MEMBER(r) & MEMBER(m) & MEMBER(p) & MEMBER(l); }
  bool operator==(const Rec2 &o) const { return f == o.f && r == o.r && m == o.m && p == o.p && l == o.l; } };
template <class T> struct A3 { T v[3]; template <class Ar> void serialize(Ar &ar) { ar & v; } bool operator==(const A3 &r) const { return v[0] == r.v[0] && v[1] == r.v[1] && v[2] == r.v[2]; } };

namespace ser {
using pbt::Src;
#define SER_INT(T) inline void gen(Src &s, T &v) { v = (T)s.i64(); } inline void enc(std::string &o, T v) { unsigned long long u = (unsigned long long)v; for (size_t i = 0; i < sizeof(T); i++) o += (char)(u >> (8 * i)); }
SER_INT(char) SER_INT(signed char) SER_INT(unsigned char) SER_INT(short) SER_INT(unsigned short) SER_INT(int) SER_INT(unsigned) SER_INT(long) SER_INT(unsigned long) SER_INT(long long) SER_INT(unsigned long long)
#undef SER_INT
inline void gen(Src &s, bool &v) { v = s.coin(); }
inline void enc(std::string &o, bool v) { o += (char)(v ? 1 : 0); }
inline void gen(Src &s, float &v) { v = (float)s.range(-1000, 1000) / 7; if (s.coin(1, 9)) v = -0.0f; }
inline void enc(std::string &o, float v) { uint32_t u; memcpy(&u, &v, 4); for (int i = 0; i < 4; i++) o += (char)(u >> (8 * i)); }
inline void gen(Src &s, double &v) { v = s.finite(); if (s.coin(1, 12)) v = 1.0 / 0.0; }
inline void enc(std::string &o, double v) { uint64_t u; memcpy(&u, &v, 8); for (int i = 0; i < 8; i++) o += (char)(u >> (8 * i)); }
inline void cnt(std::string &o, size_t n) { for (int i = 0; i < 4; i++) o += (char)(n >> (8 * i)); }
inline bool &big() { static bool b; return b; }   // allow long strings and containers in this value
inline void gen(Src &s, std::string &v) { if (big() && s.coin(1, 20)) { big() = false; v = s.blob(s.edge_len(70000)); } else v = s.bytes(s.coin(1, 15) ? 300 : 10); }
inline void enc(std::string &o, const std::string &v) { cnt(o, v.size()); o += v; }
inline void gen(Src &s, u32s &v) { v.clear(); if (big() && s.coin(1, 20)) { big() = false; size_t n = s.edge_len(5000); uint32_t x = (uint32_t)s.choose(100000); for (size_t i = 0; i < n; i++) v += (x = x * 1664525u + 1013904223u) >> 11; return; } size_t n = s.size(8); for (size_t i = 0; i < n; i++) v += (uint32_t)s.codepoint(); }
inline void enc(std::string &o, const u32s &v) { cnt(o, v.size()); for (uint32_t c : v) { for (int i = 0; i < 4; i++) o += (char)(c >> (8 * i)); } }
#define SER_DECL(TT, ...) template <__VA_ARGS__> void gen(Src &s, TT &v); template <__VA_ARGS__> void enc(std::string &o, const TT &v);
#define COMMA ,
SER_DECL(std::pair<A COMMA B>, class A, class B)
SER_DECL(std::vector<T>, class T) SER_DECL(std::deque<T>, class T) SER_DECL(std::list<T>, class T) SER_DECL(std::set<T>, class T)
SER_DECL(std::map<K COMMA V>, class K, class V) SER_DECL(A3<T>, class T)
SER_DECL(pfi::data::unordered_map<K COMMA V>, class K, class V) SER_DECL(pfi::data::unordered_set<T>, class T)
inline void gen(Src &s, Rec &v) ; inline void enc(std::string &o, const Rec &v);
inline void gen(Src &s, Rec2 &v) ; inline void enc(std::string &o, const Rec2 &v);
inline size_t cn(Src &s) { return s.choose(4) ? s.choose(4) : s.choose(14); }
// many small elements from few choices
inline size_t many(Src &s) { if (!big() || !s.coin(1, 20)) return 0; big() = false; return s.edge_len(2100); }
template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type small(uint64_t x, T &v) { v = (T)(int16_t)(x >> 33); }
inline void small(uint64_t x, std::string &v) { v = std::string((x >> 40) % 4, (char)(x >> 33)) + (char)(x >> 50) + (char)(x >> 20); }
template <class A, class B> void small(uint64_t x, std::pair<A, B> &v) { small(x, v.first); small(x * 7 + 5, v.second); }
template <class T> typename std::enable_if<!std::is_arithmetic<T>::value>::type small(uint64_t, T &) {}
inline void small(uint64_t x, Rec &v) { small(x, v.a); small(x, v.b); v.d = 0.5; }
inline void small(uint64_t x, Rec2 &v) { v.f = x >> 40 & 1; small(x, v.r); small(x, v.p); }
template <class A, class B> void gen(Src &s, std::pair<A, B> &v) { gen(s, v.first); gen(s, v.second); }
template <class A, class B> void enc(std::string &o, const std::pair<A, B> &v) { enc(o, v.first); enc(o, v.second); }
#define SER_SEQ(C) template <class T> void gen(Src &s, C<T> &v) { v.clear(); size_t n = many(s); if (n) { uint64_t x = s.choose(100000); for (size_t i = 0; i < n; i++) { T t; small(x = x * 6364136223846793005ull + 1442695040888963407ull, t); v.insert(v.end(), t); } return; } n = cn(s); for (size_t i = 0; i < n; i++) { T t; gen(s, t); v.insert(v.end(), t); } } template <class T> void enc(std::string &o, const C<T> &v) { cnt(o, v.size()); for (auto &x : v) enc(o, x); }
SER_SEQ(std::vector) SER_SEQ(std::deque) SER_SEQ(std::list) SER_SEQ(std::set)
template <class T> void gen(Src &s, pfi::data::unordered_set<T> &v) { v.clear(); size_t n = many(s); if (n) { uint64_t x = s.choose(100000); for (size_t i = 0; i < n; i++) { T t; small(x = x * 6364136223846793005ull + 1442695040888963407ull, t); v.insert(v.end(), t); } return; } n = cn(s); for (size_t i = 0; i < n; i++) { T t; gen(s, t); v.insert(t); } }
template <class T> void enc(std::string &o, const pfi::data::unordered_set<T> &v) { cnt(o, v.size()); for (auto &x : v) enc(o, x); }
template <class K, class V> void gen(Src &s, std::map<K, V> &v) { v.clear(); size_t n = many(s); if (n) { uint64_t x = s.choose(100000); for (size_t i = 0; i < n; i++) { K k; small(x = x * 6364136223846793005ull + 1442695040888963407ull, k); small(x * 3, v[k]); } return; } n = cn(s); for (size_t i = 0; i < n; i++) { K k; gen(s, k); gen(s, v[k]); } }
template <class K, class V> void enc(std::string &o, const std::map<K, V> &v) { cnt(o, v.size()); for (auto &x : v) { enc(o, x.first); enc(o, x.second); } }
template <class K, class V> void gen(Src &s, pfi::data::unordered_map<K, V> &v) { v.clear(); size_t n = many(s); if (n) { uint64_t x = s.choose(100000); for (size_t i = 0; i < n; i++) { K k; small(x = x * 6364136223846793005ull + 1442695040888963407ull, k); small(x * 3, v[k]); } return; } n = cn(s); for (size_t i = 0; i < n; i++) { K k; gen(s, k); gen(s, v[k]); } }
template <class K, class V> void enc(std::string &o, const pfi::data::unordered_map<K, V> &v) { cnt(o, v.size()); for (auto &x : v) { enc(o, x.first); enc(o, x.second); } }
template <class T> void gen(Src &s, A3<T> &v) { for (auto &x : v.v) gen(s, x); }
template <class T> void enc(std::string &o, const A3<T> &v) { for (auto &x : v.v) enc(o, x); }
inline void gen(Src &s, Rec &v) { gen(s, v.a); gen(s, v.b); gen(s, v.c); gen(s, v.d); }
inline void enc(std::string &o, const Rec &v) { enc(o, v.a); enc(o, v.b); enc(o, v.c); enc(o, v.d); }
inline void gen(Src &s, Rec2 &v) { gen(s, v.f); gen(s, v.r); gen(s, v.m); gen(s, v.p); gen(s, v.l); }
inline void enc(std::string &o, const Rec2 &v) { enc(o, v.f); enc(o, v.r); enc(o, v.m); enc(o, v.p); enc(o, v.l); }
}
#endif
