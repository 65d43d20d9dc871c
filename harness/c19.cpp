#include "pbt.h"
#include <map>
#include <sstream>
#include <data/intern.h>
#include <data/serialization.h>
#include <data/serialization/string.h>
#include <data/serialization/vector.h>
#include <data/serialization/pair.h>
using namespace pbt;
using pfi::data::intern;
typedef pfi::data::serialization::binary_iarchive IA; typedef pfi::data::serialization::binary_oarchive OA;
template <class K> struct M { std::vector<K> v; int find(const K &k) const { for (size_t i = 0; i < v.size(); i++) if (v[i] == k) return (int)i; return -1; } };
static int mk(Src &s, int *) { return s.coin() ? (int)s.choose(12) : (int)s.i64(); }
static std::string mk(Src &s, std::string *) { return s.coin() ? s.over("ab", 3) : s.bytes(6); }
static int bulk(size_t i, int *) { return (int)(i * 2654435761u); }
static std::string bulk(size_t i, std::string *) { return "key" + std::to_string(i * 7919); }
struct BadHash { size_t operator()(const std::string &x) const { return x.size() % 2; } };     // collisions everywhere
template <class I, class K> static void same(const I &t, const M<K> &m, const char *when) {
  CHECK(t.size() == m.v.size(), "size " << t.size() << ", not " << m.v.size() << " " << when); CHECK(t.empty() == m.v.empty(), "empty() " << when);
  for (size_t i = 0; i < m.v.size(); i++) { CHECK(t.key2id_nogen(m.v[i]) == (int)i, "number of key " << i << " is " << t.key2id_nogen(m.v[i]) << " " << when); CHECK(t.id2key((int)i) == m.v[i], "key of number " << i << " " << when); CHECK(t.exist_key(m.v[i]) && t.exist_id((int)i), "existence of " << i << " " << when); }
  CHECK(!t.exist_id(-1) && !t.exist_id((int)m.v.size()), "an unused number exists " << when);
}
template <class I, class K> static void run(Src &s, Ctx &c) {
  I t[2]; M<K> m[2]; size_t n = s.size(60); bool reload = false, again = false;
  if (s.coin(1, 80)) { n = std::min<size_t>(n, 8); size_t b = s.edge_len(600); for (size_t i = 0; i < b; i++) { K k = bulk(i, (K *)nullptr); int id = t[0].key2id(k); CHECK(id == (int)i, "number of the " << i << "th new key is " << id); m[0].v.push_back(k); } c.label("large table"); same(t[0], m[0], "after many insertions"); }
  for (size_t i = 0; i < n; i++) {
    int w = s.coin(1, 5) ? 1 : 0; I &a = t[w]; M<K> &b = m[w]; K k = !b.v.empty() && s.coin(1, 3) ? b.v[s.choose(b.v.size())] : mk(s, (K *)nullptr); int want = b.find(k);
    switch (s.choose(9)) {
      case 0: case 1: case 2: case 3: { NOTE("key2id on " << w); int id = a.key2id(k); again |= want >= 0; if (want < 0) { want = (int)b.v.size(); b.v.push_back(k); } CHECK(id == want, "new number " << id << ", not " << want); break; }
      case 4: { NOTE("key2id without creating on " << w); int id = a.key2id(k, false); CHECK(id == want, "number without creating: " << id << ", not " << want); break; }
      case 5: { NOTE("key2id_nogen on " << w); const I &ca = a; CHECK(ca.key2id_nogen(k) == want, "key2id_nogen: " << ca.key2id_nogen(k) << ", not " << want); CHECK(ca.exist_key(k) == (want >= 0), "exist_key"); break; }
      case 6: { NOTE("save " << w << " and load"); std::stringstream ss; { OA oa(ss); oa << a; } I x; if (s.coin()) x.key2id(mk(s, (K *)nullptr)); { IA ia(ss); ia >> x; } same(x, b, "after loading"); reload = true; if (s.coin()) { I y; { std::stringstream s2; { OA o2(s2); o2 << x; } IA i2(s2); i2 >> a; } } else a = x; break; }
      case 7: if (s.coin(1, 3)) { NOTE("clear " << w); a.clear(); b.v.clear(); } else { NOTE("swap"); if (s.coin()) a.swap(t[1 - w]); else swap(a, t[1 - w]); std::swap(m[0].v, m[1].v); } break;
      default: { NOTE("copy " << w << " to " << 1 - w); t[1 - w] = a; m[1 - w] = b; }
    }
    same(t[0], m[0], "in table 0"); same(t[1], m[1], "in table 1");
  }
  c.nt(m[0].v.size() + m[1].v.size() > 2 && (reload || again)); if (reload) c.label("saved and loaded");
}
static void ops(Src &s, Ctx &c) { switch (s.choose(3)) { case 0: run<intern<std::string>, std::string>(s, c); break; case 1: run<intern<int>, int>(s, c); break; default: run<intern<std::string, BadHash>, std::string>(s, c); } }
template <class I, class K> static void many(Src &s, Ctx &c) {   // very many keys
  size_t n = s.pick<size_t>({30000, 65500, 131050}) + s.choose(60); I t; NOTE(n << " keys"); c.nt(); for (size_t i = 0; i < n; i++) { int id = t.key2id(bulk(i, (K *)nullptr)); CHECK(id == (int)i, "number of the " << i << "th new key is " << id); } CHECK(t.size() == n, "size " << t.size()); auto all = [&](const I &x, const char *w) { for (size_t i = 0; i < n; i++) { K k = bulk(i, (K *)nullptr); CHECK(x.key2id_nogen(k) == (int)i, w << ": number of key " << i << " is " << x.key2id_nogen(k)); CHECK(x.id2key((int)i) == k, w << ": key of number " << i); } }; all(t, "table"); if (s.coin(1, 3)) { std::stringstream ss; { OA oa(ss); oa << t; } I x; { IA ia(ss); ia >> x; } CHECK(x.size() == n, "loaded: size " << x.size()); all(x, "loaded"); } }
static void huge(Src &s, Ctx &c) { if (s.coin()) many<intern<std::string>, std::string>(s, c); else many<intern<int>, int>(s, c); }
Suite pbt::suite() {
  Suite u; u.property = "C19";
  u.rule = "Tables of up to 131100 keys; random histories of inserting, looking up (with and without creating), saving and loading (also into a used table), clearing, swapping and copying two tables with int, string and badly hashed keys, the whole tables compared with a list after every step; non-trivial = 3+ keys with a repeated key or a reload";
  u.props = {{"ops", ops, 15000, 300000, true}, {"huge", huge, 5, 100, false}};
  return u;
}
