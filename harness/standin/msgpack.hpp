// A stand-in for the part of msgpack-c 0.5 that network/mprpc uses (the library is not installed here): the same names and
// behaviour, written from the MessagePack format.  Every byte of an unpacked object lives in its zone, so that using one
// after its zone is gone is a use after free.
#ifndef STANDIN_MSGPACK_HPP
#define STANDIN_MSGPACK_HPP
#include <arpa/inet.h>  // as msgpack/sysdep.h does
#include <limits>
#include <type_traits>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
namespace msgpack {
namespace type {
enum object_type { NIL = 0, BOOLEAN = 1, POSITIVE_INTEGER = 2, NEGATIVE_INTEGER = 3, DOUBLE = 4, RAW = 5, ARRAY = 6, MAP = 7 };
struct nil {};
}
class type_error : public std::bad_cast {};
class unpack_error : public std::runtime_error { public: unpack_error(const std::string &m) : std::runtime_error(m) {} };
struct object; struct object_kv;
struct object {
  type::object_type type;
  union { bool boolean; uint64_t u64; int64_t i64; double dec; struct { uint32_t size; object *ptr; } array; struct { uint32_t size; object_kv *ptr; } map; struct { uint32_t size; const char *ptr; } raw; } via;
  object() : type(type::NIL) {}
  bool is_nil() const { return type == type::NIL; }
  template <class T> void convert(T *v) const;
  template <class T> T as() const { T v; convert(&v); return v; }
};
struct object_kv { object key, val; };
class zone {
public:
  zone() {}
  void *allocate(size_t n) { mem.push_back(std::unique_ptr<char[]>(new char[n ? n : 1])); return mem.back().get(); }
private:
  zone(const zone &); zone &operator=(const zone &); std::deque<std::unique_ptr<char[]>> mem;
};
inline std::ostream &operator<<(std::ostream &s, const object &o) {
  switch (o.type) {
    case type::NIL: return s << "nil"; case type::BOOLEAN: return s << (o.via.boolean ? "true" : "false"); case type::POSITIVE_INTEGER: return s << o.via.u64; case type::NEGATIVE_INTEGER: return s << o.via.i64; case type::DOUBLE: return s << o.via.dec;
    case type::RAW: (s << '"').write(o.via.raw.ptr, o.via.raw.size); return s << '"';
    case type::ARRAY: s << "["; for (uint32_t i = 0; i < o.via.array.size; i++) s << (i ? ", " : "") << o.via.array.ptr[i]; return s << "]";
    default: s << "{"; for (uint32_t i = 0; i < o.via.map.size; i++) s << (i ? ", " : "") << o.via.map.ptr[i].key << "=>" << o.via.map.ptr[i].val; return s << "}";
  }
}
class sbuffer { std::string b; public: void write(const char *p, size_t n) { b.append(p, n); } char *data() { return &b[0]; } const char *data() const { return b.data(); } size_t size() const { return b.size(); } };
template <class S> class packer {
  S &s; void b(unsigned char c) { s.write((const char *)&c, 1); } void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b((unsigned char)(v >> (8 * i))); }
public:
  explicit packer(S &s) : s(s) {}
  packer &pack_nil() { b(0xc0); return *this; } packer &pack_true() { b(0xc3); return *this; } packer &pack_false() { b(0xc2); return *this; }
  packer &pack_u(uint64_t v) { if (v < 128) b((unsigned char)v); else if (v < 256) { b(0xcc); be(v, 1); } else if (v < 65536) { b(0xcd); be(v, 2); } else if (v < 4294967296ull) { b(0xce); be(v, 4); } else { b(0xcf); be(v, 8); } return *this; }
  packer &pack_i(int64_t v) { if (v >= 0) return pack_u((uint64_t)v); if (v >= -32) b((unsigned char)v); else if (v >= -128) { b(0xd0); be((uint64_t)v, 1); } else if (v >= -32768) { b(0xd1); be((uint64_t)v, 2); } else if (v >= -2147483648ll) { b(0xd2); be((uint64_t)v, 4); } else { b(0xd3); be((uint64_t)v, 8); } return *this; }
  packer &pack_double(double d) { uint64_t u; memcpy(&u, &d, 8); b(0xcb); be(u, 8); return *this; }
  packer &pack_array(size_t n) { if (n < 16) b((unsigned char)(0x90 | n)); else if (n < 65536) { b(0xdc); be(n, 2); } else { b(0xdd); be(n, 4); } return *this; }
  packer &pack_map(size_t n) { if (n < 16) b((unsigned char)(0x80 | n)); else if (n < 65536) { b(0xde); be(n, 2); } else { b(0xdf); be(n, 4); } return *this; }
  packer &pack_raw(size_t n) { if (n < 32) b((unsigned char)(0xa0 | n)); else if (n < 65536) { b(0xda); be(n, 2); } else { b(0xdb); be(n, 4); } return *this; }
  packer &pack_raw_body(const char *p, size_t n) { s.write(p, n); return *this; }
  template <class T> packer &pack(const T &v);
};
namespace impl {
template <class T> struct conv { template <class P> static void out(P &p, const T &v) { v.msgpack_pack(p); } static void in(const object &o, T &v) { v.msgpack_unpack(o); } };
template <class T> struct num {
  template <class P> static void out(P &p, T v) { if (std::is_signed<T>::value) p.pack_i((int64_t)v); else p.pack_u((uint64_t)v); }
  static void in(const object &o, T &v) {
    if (o.type == type::POSITIVE_INTEGER) { if (o.via.u64 > (uint64_t)std::numeric_limits<T>::max()) throw type_error(); v = (T)o.via.u64; }
    else if (o.type == type::NEGATIVE_INTEGER) { if (!std::is_signed<T>::value || o.via.i64 < (int64_t)std::numeric_limits<T>::min()) throw type_error(); v = (T)o.via.i64; }
    else throw type_error();
  }
};
#define STANDIN_NUM(t) template <> struct conv<t> : num<t> {};
STANDIN_NUM(char) STANDIN_NUM(signed char) STANDIN_NUM(unsigned char) STANDIN_NUM(short) STANDIN_NUM(unsigned short) STANDIN_NUM(int) STANDIN_NUM(unsigned int) STANDIN_NUM(long) STANDIN_NUM(unsigned long) STANDIN_NUM(long long) STANDIN_NUM(unsigned long long)
#undef STANDIN_NUM
template <> struct conv<bool> { template <class P> static void out(P &p, bool v) { if (v) p.pack_true(); else p.pack_false(); } static void in(const object &o, bool &v) { if (o.type != type::BOOLEAN) throw type_error(); v = o.via.boolean; } };
template <> struct conv<double> { template <class P> static void out(P &p, double v) { p.pack_double(v); } static void in(const object &o, double &v) { if (o.type != type::DOUBLE) throw type_error(); v = o.via.dec; } };
template <> struct conv<type::nil> { template <class P> static void out(P &p, const type::nil &) { p.pack_nil(); } static void in(const object &o, type::nil &) { if (o.type != type::NIL) throw type_error(); } };
template <> struct conv<std::string> { template <class P> static void out(P &p, const std::string &v) { p.pack_raw(v.size()); p.pack_raw_body(v.data(), v.size()); } static void in(const object &o, std::string &v) { if (o.type != type::RAW) throw type_error(); v.assign(o.via.raw.ptr, o.via.raw.size); } };
template <> struct conv<object> { template <class P> static void out(P &p, const object &o) { switch (o.type) { case type::NIL: p.pack_nil(); break; case type::BOOLEAN: conv<bool>::out(p, o.via.boolean); break; case type::POSITIVE_INTEGER: p.pack_u(o.via.u64); break; case type::NEGATIVE_INTEGER: p.pack_i(o.via.i64); break; case type::DOUBLE: p.pack_double(o.via.dec); break; case type::RAW: p.pack_raw(o.via.raw.size); p.pack_raw_body(o.via.raw.ptr, o.via.raw.size); break; case type::ARRAY: p.pack_array(o.via.array.size); for (uint32_t i = 0; i < o.via.array.size; i++) out(p, o.via.array.ptr[i]); break; default: p.pack_map(o.via.map.size); for (uint32_t i = 0; i < o.via.map.size; i++) { out(p, o.via.map.ptr[i].key); out(p, o.via.map.ptr[i].val); } } } static void in(const object &o, object &v) { v = o; } };
template <class T> struct conv<std::vector<T>> { template <class P> static void out(P &p, const std::vector<T> &v) { p.pack_array(v.size()); for (auto &x : v) p.pack(x); } static void in(const object &o, std::vector<T> &v) { if (o.type != type::ARRAY) throw type_error(); v.resize(o.via.array.size); for (uint32_t i = 0; i < o.via.array.size; i++) o.via.array.ptr[i].convert(&v[i]); } };
template <class T> struct conv<std::set<T>> { template <class P> static void out(P &p, const std::set<T> &v) { p.pack_array(v.size()); for (auto &x : v) p.pack(x); } static void in(const object &o, std::set<T> &v) { if (o.type != type::ARRAY) throw type_error(); v.clear(); for (uint32_t i = 0; i < o.via.array.size; i++) v.insert(o.via.array.ptr[i].as<T>()); } };
template <class A, class B> struct conv<std::pair<A, B>> { template <class P> static void out(P &p, const std::pair<A, B> &v) { p.pack_array(2); p.pack(v.first); p.pack(v.second); } static void in(const object &o, std::pair<A, B> &v) { if (o.type != type::ARRAY || o.via.array.size != 2) throw type_error(); o.via.array.ptr[0].convert(&v.first); o.via.array.ptr[1].convert(&v.second); } };
template <class A, class B> struct conv<std::map<A, B>> { template <class P> static void out(P &p, const std::map<A, B> &v) { p.pack_map(v.size()); for (auto &x : v) { p.pack(x.first); p.pack(x.second); } } static void in(const object &o, std::map<A, B> &v) { if (o.type != type::MAP) throw type_error(); v.clear(); for (uint32_t i = 0; i < o.via.map.size; i++) o.via.map.ptr[i].val.convert(&v[o.via.map.ptr[i].key.as<A>()]); } };
}
template <class S> template <class T> packer<S> &packer<S>::pack(const T &v) { impl::conv<T>::out(*this, v); return *this; }
template <class T> void object::convert(T *v) const { impl::conv<T>::in(*this, *v); }
template <class S, class T> void pack(S &s, const T &v) { packer<S>(s).pack(v); }
namespace type {
template <class T> struct bare { typedef T type; }; template <class T> struct bare<const T &> { typedef T type; };
template <class A0, class A1, class A2, class A3> struct tuple {
  tuple() {} tuple(A0 a, A1 b, A2 c, A3 d) : a0(a), a1(b), a2(c), a3(d) {}
  A0 a0; A1 a1; A2 a2; A3 a3;
  template <class P> void msgpack_pack(P &p) const { p.pack_array(4); p.template pack<typename bare<A0>::type>(a0); p.template pack<typename bare<A1>::type>(a1); p.template pack<typename bare<A2>::type>(a2); p.template pack<typename bare<A3>::type>(a3); }
  void msgpack_unpack(object o) { if (o.type != ARRAY || o.via.array.size < 4) throw type_error(); o.via.array.ptr[0].convert(&a0); o.via.array.ptr[1].convert(&a1); o.via.array.ptr[2].convert(&a2); o.via.array.ptr[3].convert(&a3); }
};
}
class unpacker {
public:
  unpacker() : z(new zone), pos(0), end(0), ready(false) {}
  void reserve_buffer(size_t n) { if (pos == end && !ready) pos = end = 0; if (buf.size() - end < n) buf.resize(end + n); }
  char *buffer() { return buf.data() + end; }
  size_t buffer_capacity() const { return buf.size() - end; }
  void buffer_consumed(size_t n) { if (n > buffer_capacity()) throw std::logic_error("stand-in: more consumed than reserved"); end += n; }
  bool execute() { if (ready) throw std::logic_error("stand-in: execute without reset"); size_t p = pos; if (!parse(p, obj, 0)) { z.reset(new zone); return false; } pos = p; ready = true; return true; }
  object data() { if (!ready) throw std::logic_error("stand-in: data without an object"); return obj; }
  zone *release_zone() { zone *r = z.release(); z.reset(new zone); return r; }
  void reset() { ready = false; obj = object(); }
private:
  unpacker(const unpacker &); unpacker &operator=(const unpacker &);
  std::vector<char> buf; std::unique_ptr<zone> z; size_t pos, end; bool ready; object obj;
  bool num(size_t &p, int n, uint64_t &v) { if (end - p < (size_t)n) return false; v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)buf[p++]; return true; }
  bool raw(size_t &p, uint64_t n, object &o) { if (end - p < n) return false; char *m = (char *)z->allocate(n); memcpy(m, &buf[0] + p, n); p += n; o.type = type::RAW; o.via.raw.size = (uint32_t)n; o.via.raw.ptr = m; return true; }
  bool arr(size_t &p, uint64_t n, object &o, int d) { if (end - p < n) return false; object *m = (object *)z->allocate(n * sizeof(object)); for (uint64_t i = 0; i < n; i++) { new (m + i) object(); if (!parse(p, m[i], d + 1)) return false; } o.type = type::ARRAY; o.via.array.size = (uint32_t)n; o.via.array.ptr = m; return true; }
  bool map(size_t &p, uint64_t n, object &o, int d) { if ((end - p) / 2 < n) return false; object_kv *m = (object_kv *)z->allocate(n * sizeof(object_kv)); for (uint64_t i = 0; i < n; i++) { new (m + i) object_kv(); if (!parse(p, m[i].key, d + 1) || !parse(p, m[i].val, d + 1)) return false; } o.type = type::MAP; o.via.map.size = (uint32_t)n; o.via.map.ptr = m; return true; }
  bool parse(size_t &p, object &o, int d) {
    if (d > 16) throw unpack_error("nested too deeply"); if (p >= end) return false; unsigned char t = (unsigned char)buf[p++]; uint64_t v;
    auto pos_int = [&](uint64_t x) { o.type = type::POSITIVE_INTEGER; o.via.u64 = x; return true; }; auto sgn = [&](int64_t x) { if (x >= 0) return pos_int((uint64_t)x); o.type = type::NEGATIVE_INTEGER; o.via.i64 = x; return true; };
    if (t < 0x80) return pos_int(t); if (t >= 0xe0) return sgn((signed char)t); if (t < 0x90) return map(p, t & 15, o, d); if (t < 0xa0) return arr(p, t & 15, o, d); if (t < 0xc0) return raw(p, t & 31, o);
    switch (t) {
      case 0xc0: o.type = type::NIL; return true; case 0xc2: case 0xc3: o.type = type::BOOLEAN; o.via.boolean = t == 0xc3; return true;
      case 0xca: { if (!num(p, 4, v)) return false; uint32_t w = (uint32_t)v; float f; memcpy(&f, &w, 4); o.type = type::DOUBLE; o.via.dec = f; return true; } case 0xcb: if (!num(p, 8, v)) return false; o.type = type::DOUBLE; memcpy(&o.via.dec, &v, 8); return true;
      case 0xcc: return num(p, 1, v) && pos_int(v); case 0xcd: return num(p, 2, v) && pos_int(v); case 0xce: return num(p, 4, v) && pos_int(v); case 0xcf: return num(p, 8, v) && pos_int(v);
      case 0xd0: return num(p, 1, v) && sgn((int8_t)v); case 0xd1: return num(p, 2, v) && sgn((int16_t)v); case 0xd2: return num(p, 4, v) && sgn((int32_t)v); case 0xd3: return num(p, 8, v) && sgn((int64_t)v);
      case 0xda: return num(p, 2, v) && raw(p, v, o); case 0xdb: return num(p, 4, v) && raw(p, v, o); case 0xdc: return num(p, 2, v) && arr(p, v, o, d); case 0xdd: return num(p, 4, v) && arr(p, v, o, d); case 0xde: return num(p, 2, v) && map(p, v, o, d); case 0xdf: return num(p, 4, v) && map(p, v, o, d);
      default: throw unpack_error("parse error");
    }
  }
};
}
#define MSGPACK_DEFINE(...) \
  template <class Packer> void msgpack_pack(Packer &p) const { msgpack_all(p, __VA_ARGS__); } \
  void msgpack_unpack(msgpack::object o) { if (o.type != msgpack::type::ARRAY) throw msgpack::type_error(); uint32_t msgpack_n = 0; msgpack_get(o, msgpack_n, __VA_ARGS__); } \
  template <class P, class... T> static void msgpack_all(P &p, const T &...v) { p.pack_array(sizeof...(T)); int d[] = {(p.pack(v), 0)...}; (void)d; } \
  template <class... T> static void msgpack_get(msgpack::object &o, uint32_t &i, T &...v) { int d[] = {(i < o.via.array.size ? (o.via.array.ptr[i].convert(&v), i++) : i, 0)...}; (void)d; }
#endif
