#include "pbt.h"
#include <list>
#include <map>
#include <stdexcept>
#include <data/lru.h>
using namespace pbt;
using pfi::data::lru;
// values that are counted, so that leaked or doubly destroyed entries are seen
static long live = 0;
struct V { int x; V(int x = 0) : x(x) { live++; } V(const V &o) : x(o.x) { live++; } V &operator=(const V &o) { x = o.x; return *this; } ~V() { live--; } };
template <class K> struct Model {
  size_t cap; std::list<std::pair<K, int>> l;       // front = least recently used
  typename std::list<std::pair<K, int>>::iterator find(const K &k) { auto i = l.begin(); while (i != l.end() && !(i->first == k)) ++i; return i; }
  void touch(const K &k) { auto i = find(k); if (i != l.end()) l.splice(l.end(), l, i); }
  void set(const K &k, int v) { if (find(k) != l.end()) return; while (l.size() >= cap) l.pop_front(); l.push_back({k, v}); }
};
static int mk(int i, int *) { return i - 3; }
static std::string mk(int i, std::string *) { return i > 60 ? "key" + std::to_string(i) : i % 3 ? std::string(i, 'k') : std::string(1, (char)('a' + i)); }
template <class K> static void run(Src &s, Ctx &c) {
  live = 0; { bool large = s.coin(1, 60); size_t cap = large ? 1 + s.edge_len(300) : 1 + s.choose(s.coin(1, 4) ? 30 : 5); int keys = (int)(cap + 1 + s.choose(cap + 4)); lru<K, V> t((int)cap); Model<K> m; m.cap = cap; NOTE("capacity " << cap << ", " << keys << " keys");
  size_t n = s.size(120); int next = 1; bool evict = false;
  if (large) { c.label("large cache"); for (int q = 0; q < keys; q++) { if (q % 16 == 0 && s.coin(1, 4)) continue; K k = mk(q, (K *)nullptr); m.set(k, next); t.set(k, V(next)); next++; if (q % 7 == 3) { K j = mk(q / 2, (K *)nullptr); t.touch(j); m.touch(j); } } }
  for (size_t i = 0; i < n; i++) {
    int ki = (int)s.choose(keys); K k = mk(ki, (K *)nullptr);
    switch (s.choose(10)) {
      case 0: case 1: case 2: { evict |= m.find(k) == m.l.end() && m.l.size() >= cap; NOTE("set " << ki << " " << next); m.set(k, next); t.set(k, V(next)); next++; break; }
      case 3: case 4: { NOTE("get " << ki); auto it = m.find(k); if (it == m.l.end()) { bool th = false; try { t.get(k); } catch (const std::runtime_error &) { th = true; } CHECK(th, "get of an absent key " << ki << " does not throw"); } else { CHECK(t.get(k).x == it->second, "get " << ki << " gives " << t.get(k).x << " not " << it->second); m.touch(k); } break; }
      case 5: { NOTE("touch " << ki); t.touch(k); m.touch(k); break; }
      case 6: { NOTE("[] " << ki); auto it = m.find(k); if (it == m.l.end()) { evict |= m.l.size() >= cap; m.set(k, 0); } else m.touch(k); V &r = t[k]; CHECK(r.x == m.find(k)->second, "[" << ki << "] is " << r.x); if (s.coin()) { NOTE("  = " << next); r = V(next); m.find(k)->second = next; next++; } break; }
      case 7: { NOTE("remove " << ki); t.remove(k); auto it = m.find(k); if (it != m.l.end()) m.l.erase(it); break; }
      case 8: if (s.coin(1, 12)) { NOTE("clear"); t.clear(); m.l.clear(); } else { NOTE("has " << ki); CHECK(t.has(k) == (m.find(k) != m.l.end()), "has " << ki); } break;
      default: if (s.coin(1, 6)) { NOTE("copy"); lru<K, V> u(t); u.set(mk(0, (K *)nullptr), V(-5)); u.remove(mk(1, (K *)nullptr)); t = t; }
    }
    size_t held = 0; for (int q = 0; q < keys; q++) { K kk = mk(q, (K *)nullptr); bool h = t.has(kk); CHECK(h == (m.find(kk) != m.l.end()), "key " << q << (h ? " is held although it must have been dropped" : " is not held") << " after operation " << i); held += h; }
    CHECK(held <= cap, held << " entries in a cache of " << cap); CHECK(live == (long)m.l.size(), live << " values alive, " << m.l.size() << " held");
  }
  c.nt(evict); for (auto &p : m.l) CHECK(t.get(p.first).x == p.second, "final value"); }
  CHECK(live == 0, live << " values alive after destruction");
}
static void ops(Src &s, Ctx &c) { if (s.coin()) run<int>(s, c); else run<std::string>(s, c); }
static void lasting(Src &s, Ctx &c) {   // a long life: the order of use is right after any number of operations
  live = 0; { size_t cap = 2 + s.choose(6); lru<int, V> t((int)cap); Model<int> m; m.cap = cap; size_t n = s.pick<size_t>({250, 32760, 65530, 131060}) + s.choose(40); uint32_t x = (uint32_t)s.choose(100000); int keys = (int)cap + 2; NOTE("capacity " << cap << ", " << n << " operations"); c.nt();
  for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; int k = (int)((x >> 8) % (unsigned)keys); switch ((x >> 24) % 4) { case 0: t.touch(k); m.touch(k); break; case 1: m.set(k, (int)i); t.set(k, V((int)i)); break; default: if (m.find(k) != m.l.end()) { CHECK(t.get(k).x == m.find(k)->second, "value of " << k << " after " << i << " operations"); m.touch(k); } } if (i % 64 == 0) for (int q = 0; q < keys; q++) CHECK(t.has(q) == (m.find(q) != m.l.end()), "key " << q << " after " << i << " operations"); }
  for (int q = 0; q < 2 * (int)cap; q++) { m.set(1000 + q, q); t.set(1000 + q, V(q)); for (int k = 0; k < keys; k++) CHECK(t.has(k) == (m.find(k) != m.l.end()), "key " << k << " of those held is dropped out of order after " << n << " operations"); } CHECK(live == (long)cap, live << " values alive"); } }
Suite pbt::suite() {
  Suite u; u.property = "C18";
  u.rule = "Histories of up to 131100 operations on small caches; random operation histories (set, get, touch, [], remove, clear, copy) on caches of capacity 1..30 with somewhat more keys than fit, int and string keys; after every operation the whole key space is compared with a list model; non-trivial = an entry had to be dropped";
  u.props = {{"ops", ops, 20000, 400000, true}, {"lasting", lasting, 8, 300, false}};
  u.assumptions = {"capacity at least 1 (as documented); used from one thread"};
  return u;
}
