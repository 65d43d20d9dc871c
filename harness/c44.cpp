#include "pbt.h"
#include <map>
#include <set>
#include <lang/any.h>
#include <lang/scoped_ptr.h>
#include <data/optional.h>
using namespace pbt;
using pfi::lang::any; using pfi::lang::any_cast; using pfi::lang::bad_any_cast; using pfi::lang::scoped_ptr; using pfi::data::optional;
static std::set<const void *> alive;
struct Obj { int v; explicit Obj(int v = 0) : v(v) { reg(); } Obj(const Obj &o) : v(o.v) { CHECKALIVE(o); reg(); } Obj &operator=(const Obj &o) { CHECKALIVE(*this); CHECKALIVE(o); v = o.v; return *this; } ~Obj() { if (!alive.erase(this)) abort(); v = -99; }
  void reg() { if (!alive.insert(this).second) abort(); } static void CHECKALIVE(const Obj &o) { if (!alive.count(&o)) abort(); } bool operator==(const Obj &o) const { return v == o.v; } bool operator<(const Obj &o) const { return v < o.v; } };
struct Derived : Obj { explicit Derived(int x) : Obj(x) {} };
enum { EMPTY, INT, UINT, LONG, DOUBLE, STR, OBJ, DER, PTR, NK };
struct Val { int kind = EMPTY; int n = 0; };
static std::string sval(int n) { return std::string((size_t)(n & 63), (char)('a' + (n & 7))) + std::to_string(n); }
static any mk(const Val &v) { switch (v.kind) { case EMPTY: return any(); case INT: return any(v.n); case UINT: return any((unsigned)v.n); case LONG: return any((long)v.n); case DOUBLE: return any(v.n / 4.0); case STR: return any(sval(v.n)); case OBJ: return any(Obj(v.n)); case DER: return any(Derived(v.n)); default: return any((const char *)nullptr + v.n); } }
static void assign(any &a, const Val &v) { switch (v.kind) { case EMPTY: a = any(); break; case INT: a = v.n; break; case UINT: a = (unsigned)v.n; break; case LONG: a = (long)v.n; break; case DOUBLE: a = v.n / 4.0; break; case STR: a = sval(v.n); break; case OBJ: a = Obj(v.n); break; case DER: a = Derived(v.n); break; default: a = (const char *)nullptr + v.n; } }
template <class T> static bool has(const any &a, const T **p) { try { const T &r = any_cast<T>(a); *p = &r; if (&a.cast<T>() != &r) FAIL("cast and any_cast disagree"); return true; } catch (const bad_any_cast &) { return false; } }
template <class T, class E> static void one(const any &a, const Val &v, int kind, const E &want, const char *nm) { const T *p = nullptr; bool h = has<T>(a, &p); CHECK(h == (v.kind == kind), (h ? "yields a value of type " : "refuses its own type ") << nm); if (h) CHECK(*p == want, "value differs (" << nm << ")"); CHECK((a.type() == typeid(T)) == (v.kind == kind), "type() wrong for " << nm); }
static void verify(const any &a, const Val &v) {
  one<int>(a, v, INT, v.n, "int"); one<unsigned>(a, v, UINT, (unsigned)v.n, "unsigned"); one<long>(a, v, LONG, (long)v.n, "long"); one<double>(a, v, DOUBLE, v.n / 4.0, "double"); one<std::string>(a, v, STR, sval(v.n), "string"); one<Obj>(a, v, OBJ, Obj(v.n), "object"); one<Derived>(a, v, DER, Derived(v.n), "derived object"); one<const char *>(a, v, PTR, (const char *)nullptr + v.n, "pointer");
  const char *q; const short *sp; CHECK(!has<short>(a, &sp) && !has<char>(a, &q), "yields a value of a type never stored"); CHECK((a.type() == typeid(void)) == (v.kind == EMPTY), "type of an empty holder");
}
static void anys(Src &s, Ctx &c) {
  alive.clear(); { std::vector<any> a(3); Val m[3]; size_t n = s.size(40); int kinds = 0;
    for (size_t i = 0; i < n; i++) {
      size_t x = s.choose(3), y = s.choose(3); Val v; v.kind = (int)s.choose(NK); v.n = (int)s.range(-50, 50);
      switch (s.choose(7)) {
        case 0: NOTE(x << " = value kind " << v.kind << " " << v.n); assign(a[x], v); m[x] = v; kinds |= 1 << v.kind; break;
        case 1: NOTE(x << " = holder of kind " << v.kind); a[x] = mk(v); m[x] = v; break;
        case 2: NOTE(x << " = " << y); a[x] = a[y]; m[x] = m[y]; break;
        case 3: NOTE("swap " << x << " " << y); a[x].swap(a[y]); std::swap(m[x], m[y]); break;
        case 4: { NOTE("copy of " << x << ", changed"); any z(a[x]); verify(z, m[x]); assign(z, v); verify(z, v); const any &cx = a[x]; any w(cx); w.swap(z); verify(w, v); break; }
        case 5: NOTE(x << " = itself"); a[x] = *&a[x]; { const any &cx = a[x]; a[x] = cx; } break;
        default: if (m[x].kind == STR) { NOTE(x << " = its own content"); a[x] = any_cast<std::string>(a[x]); } else if (m[x].kind == OBJ) { a[x] = a[x].cast<Obj>(); }
      }
      for (int k = 0; k < 3; k++) { verify(a[k], m[k]); } size_t objs = 0; for (auto &q : m) objs += q.kind == OBJ || q.kind == DER; CHECK(alive.size() == objs, alive.size() << " contained objects alive, " << objs << " expected");
    }
    c.nt(__builtin_popcount(kinds) > 1 && n > 3); }
  CHECK(alive.empty(), alive.size() << " objects alive after destruction");
}
static void opts(Src &s, Ctx &c) {
  alive.clear(); { std::vector<optional<Obj>> a(3); int m[3] = {-1, -1, -1}; size_t n = s.size(40);     // -1 = none
    for (size_t i = 0; i < n; i++) {
      size_t x = s.choose(3), y = s.choose(3); int v = (int)s.choose(6);
      switch (s.choose(8)) {
        case 0: NOTE(x << " = value " << v); a[x] = Obj(v); m[x] = v; break;
        case 1: NOTE(x << " = optional"); a[x] = optional<Obj>(Obj(v)); m[x] = v; break;
        case 2: NOTE(x << " = none"); a[x] = optional<Obj>(); m[x] = -1; break;
        case 3: NOTE(x << " = " << y); a[x] = a[y]; m[x] = m[y]; break;
        case 4: NOTE("swap"); a[x].swap(a[y]); std::swap(m[x], m[y]); break;
        case 5: { optional<Obj> z(a[x]); CHECK((bool)z == (m[x] >= 0) && (!z || (z->v == m[x] && z.get() != a[x].get())), "copy"); if (z) z->v = 77; break; }
        case 6: if (a[x]) { NOTE("change through * and ->"); (*a[x]).v = v; m[x] = v; a[x]->v = v; } break;
        default: { optional<Derived> d; if (s.coin()) d = Derived(v); NOTE(x << " = from derived"); if (s.coin()) a[x] = d; else { optional<Obj> z(d); a[x] = z; } m[x] = d ? v : -1; if (a[x]) a[x] = *a[x]; }
      }
      for (int p = 0; p < 3; p++) { CHECK((bool)a[p] == (m[p] >= 0), "optional " << p << " presence"); CHECK((a[p].get() != nullptr) == (m[p] >= 0), "get()"); if (m[p] >= 0) CHECK((*a[p]).v == m[p], "value " << (*a[p]).v << " not " << m[p]);
        for (int q = 0; q < 3; q++) { CHECK((a[p] == a[q]) == (m[p] == m[q]) && (a[p] != a[q]) == (m[p] != m[q]), "equality"); CHECK((a[p] < a[q]) == (m[p] < m[q]) && (a[p] > a[q]) == (m[p] > m[q]) && (a[p] <= a[q]) == (m[p] <= m[q]) && (a[p] >= a[q]) == (m[p] >= m[q]), "ordering of " << m[p] << " and " << m[q]); } }
      size_t objs = 0; for (int q : m) objs += q >= 0; CHECK(alive.size() == objs, alive.size() << " objects alive, " << objs << " expected");
    }
    c.nt(n > 3); }
  CHECK(alive.empty(), alive.size() << " objects alive after destruction");
}
static void scoped(Src &s, Ctx &c) {
  alive.clear(); { scoped_ptr<Obj> a, b(new Obj(100)); int ma = -1, mb = 100; size_t n = s.size(16); c.nt(n > 2);
    for (size_t i = 0; i < n; i++) { int v = (int)s.choose(9); switch (s.choose(4)) { case 0: NOTE("reset to " << v); a.reset(new Obj(v)); ma = v; break; case 1: NOTE("reset"); b.reset(); mb = -1; break; case 2: NOTE("swap"); a.swap(b); std::swap(ma, mb); break; default: NOTE("swap function"); swap(a, b); std::swap(ma, mb); }
      CHECK((bool)a == (ma >= 0) && (bool)b == (mb >= 0), "presence"); if (a) CHECK(a->v == ma && (*a).v == ma, "value"); if (b) CHECK(b->v == mb, "value"); CHECK(alive.size() == (size_t)(ma >= 0) + (mb >= 0), alive.size() << " objects alive"); } }
  CHECK(alive.empty(), alive.size() << " objects alive after destruction");
}
Suite pbt::suite() {
  Suite u; u.property = "C44";
  u.rule = "random histories of construction, assignment (values, holders, self, own content), copy, swap and cast on three holders over eight contained types, all asked for every type after every step; the same for optional values (with comparisons) and scoped pointers; contained objects are registered by address so that a double or missing destruction is seen; non-trivial = 4+ steps";
  u.props = {{"any", anys, 20000, 300000, true}, {"optional", opts, 20000, 300000, true}, {"scoped", scoped, 10000, 50000, true}};
  return u;
}
