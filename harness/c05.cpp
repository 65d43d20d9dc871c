#include "jmodel.h"
using namespace pbt;
using namespace pfi::text::json;
// Model: a heap of nodes with shared references, as the library's handles are.
struct N; typedef std::shared_ptr<N> R;
struct N { JV::K k = JV::Null; JV leaf; std::vector<R> a; std::map<std::string, R> o; };
static R mk(const JV &v) { R n = std::make_shared<N>(); n->k = v.k; if (v.k == JV::Arr) for (auto &x : v.a) n->a.push_back(mk(x)); else if (v.k == JV::Obj) for (auto &x : v.o) n->o[x.first] = mk(x.second); else n->leaf = v; return n; }
static JV flat(const R &n, int d = 0) { if (n->k == JV::Arr) { JV r = JV::arr(); for (auto &x : n->a) r.a.push_back(flat(x, d + 1)); return r; } if (n->k == JV::Obj) { JV r = JV::obj(); for (auto &x : n->o) r.o[x.first] = flat(x.second, d + 1); return r; } return n->leaf; }
static bool reaches(const R &from, const N *to) { if (from.get() == to) return true; for (auto &x : from->a) if (reaches(x, to)) return true; for (auto &x : from->o) if (reaches(x.second, to)) return true; return false; }
static size_t count_nodes(const R &n) { size_t k = 1; for (auto &x : n->a) k += count_nodes(x); for (auto &x : n->o) k += count_nodes(x.second); return k; }

static void history(Src &s, Ctx &c) {
  std::vector<PJ> h; std::vector<R> m;      // handles and their model nodes
  for (int i = 0; i < 2; i++) { JV v = jgen(s, 2); if (i == 0) v = s.coin() ? JV::obj() : JV::arr(); h.push_back(to_pfi(v)); m.push_back(mk(v)); NOTE("h" << i << " = " << v.str()); }
  size_t steps = 1 + s.size(30), done = 0;
  for (size_t st = 0; st < steps; st++) {
    size_t x = s.choose(h.size()), y = s.choose(h.size());
    std::string key = s.over("abc", 2);
    bool obj = m[x]->k == JV::Obj, arr = m[x]->k == JV::Arr;
    JV before = flat(m[x]);
    auto bad = [&](const char *what, std::function<void()> f) { bool t = false; try { f(); } catch (const json_bad_cast_any &) { t = true; } CHECK(t, what << " on a value of another kind raised no bad cast"); CHECK(from_pfi(h[x]) == before, what << " on a value of another kind changed it"); c.label("refused operation"); };
    switch (s.choose(15)) {
      case 13: { NOTE("iterate h" << x); if (!obj) { bad("begin", [&] { h[x].begin(); }); bad("end", [&] { h[x].end(); }); const PJ &cr = h[x]; bad("const begin", [&] { cr.begin(); }); bad("const end", [&] { cr.end(); }); break; }
        if (reaches(m[y], m[x].get()) || count_nodes(m[y]) > 300) break; std::string target; for (PJ::iterator it = h[x].begin(); it != h[x].end(); ++it) if (it->first == key) { it->second = h[y]; m[x]->o[key] = m[y]; done++; } break; }
      case 14: { size_t n = s.edge_len(300); NOTE("grow h" << x << " by " << n); if (count_nodes(m[x]) + n > 700 || n > 300) break; for (size_t q = 0; q < n; q++) { if (arr) { h[x].add(PJ(new json_integer(q))); m[x]->a.push_back(mk(JV::of((int64_t)q))); } else if (obj) { std::string kk = "g" + std::to_string(q); h[x].add(kk, PJ(new json_integer(q))); m[x]->o[kk] = mk(JV::of((int64_t)q)); } } done++; break; }
      case 0: { JV v = jgen(s, 2); NOTE("h" << h.size() << " = " << v.str()); if (h.size() < 8) { h.push_back(to_pfi(v)); m.push_back(mk(v)); } break; }
      case 1: NOTE("h" << x << ".add(" << show(key) << ", h" << y << ")");
        if (obj) { if (reaches(m[y], m[x].get()) || count_nodes(m[y]) > 300) break; h[x].add(key, h[y]); m[x]->o[key] = m[y]; done++; } else bad("add(key)", [&] { h[x].add(key, h[y]); }); break;
      case 2: NOTE("h" << x << ".add(h" << y << ")");
        if (arr) { if (reaches(m[y], m[x].get()) || count_nodes(m[y]) > 300) break; h[x].add(h[y]); m[x]->a.push_back(m[y]); done++; } else bad("add(value)", [&] { h[x].add(h[y]); }); break;
      case 3: NOTE("h" << x << "[" << show(key) << "] = h" << y);
        if (obj) { if (reaches(m[y], m[x].get()) || count_nodes(m[y]) > 300) break; h[x][key] = h[y]; m[x]->o[key] = m[y]; done++; } else bad("[key]=", [&] { h[x][key] = h[y]; }); break;
      case 4: if (arr && !m[x]->a.empty()) { size_t i = s.choose(m[x]->a.size()); NOTE("h" << x << "[" << i << "] = h" << y); if (reaches(m[y], m[x].get()) || count_nodes(m[y]) > 300) break; h[x][i] = h[y]; m[x]->a[i] = m[y]; done++; } else if (!arr) bad("[index]", [&] { h[x][(size_t)0]; }); break;
      case 5: { NOTE("h" << x << "[" << show(key) << "] created"); if (obj) { PJ &r = h[x][key]; if (!m[x]->o.count(key)) m[x]->o[key] = mk(JV()); CHECK(from_pfi(r) == flat(m[x]->o[key]), "member reads as " << from_pfi(r).str()); done++; } break; }
      case 6: { const PJ &cr = h[x]; NOTE("const h" << x << "[" << show(key) << "]");
        if (obj) { if (m[x]->o.count(key)) CHECK(from_pfi(cr[key]) == flat(m[x]->o[key]), "read-only lookup gives " << from_pfi(cr[key]).str());
          else { bool t = false; try { cr[key]; } catch (const std::exception &) { t = true; } CHECK(t, "read-only lookup of a missing member raised no error"); CHECK(from_pfi(h[x]) == before, "read-only lookup changed the document"); c.label("missing member"); } }
        else bad("const [key]", [&] { cr[key]; }); break; }
      case 7: NOTE("count/size"); if (obj) { CHECK(h[x].count(key) == m[x]->o.count(key), "count(" << key << ") = " << h[x].count(key)); } else bad("count", [&] { h[x].count(key); });
        if (obj || arr) CHECK(h[x].size() == (obj ? m[x]->o.size() : m[x]->a.size()), "size " << h[x].size()); else bad("size", [&] { h[x].size(); }); break;
      case 8: { if (!obj || m[y]->k != JV::Obj) { bad("merge", [&] { if (obj) { PJ z(new json_integer(1)); h[x].merge(z); } else h[x].merge(h[y]); }); break; }
        NOTE("h" << h.size() << " = h" << x << " merge h" << y); if (h.size() >= 8 || count_nodes(m[x]) + count_nodes(m[y]) > 300) break;
        JV by = flat(m[y]); PJ r = s.coin() ? h[x].merge(h[y]) : merge(h[x], h[y]); R n = std::make_shared<N>(); n->k = JV::Obj; n->o = m[x]->o; for (auto &e : m[y]->o) n->o[e.first] = e.second; CHECK(from_pfi(h[x]) == before && from_pfi(h[y]) == by, "merge changed an operand"); h.push_back(r); m.push_back(n); done++; c.label("merge"); break; }
      case 9: { NOTE("h" << y << " = clone h" << x); if (count_nodes(m[x]) > 300) break; h[y] = h[x].clone(); m[y] = mk(before); CHECK(from_pfi(h[y]) == before, "clone reads as " << from_pfi(h[y]).str()); done++; c.label("clone"); break; }
      case 10: NOTE("h" << y << " = h" << x); h[y] = h[x]; m[y] = m[x]; done++; c.label("shared copy"); break;
      case 11: { if (h.size() >= 8 || (m[x]->a.empty() && m[x]->o.empty())) break; if (arr) { size_t i = s.choose(m[x]->a.size()); NOTE("h" << h.size() << " = h" << x << "[" << i << "]"); PJ t = h[x][i]; h.push_back(t); m.push_back(m[x]->a[i]); } else { auto it = m[x]->o.begin(); std::advance(it, s.choose(m[x]->o.size())); NOTE("h" << h.size() << " = h" << x << "[" << it->first << "]"); PJ t = h[x][it->first]; h.push_back(t); m.push_back(it->second); } done++; c.label("handle into the tree"); break; }
      default: { NOTE("merge_with"); if (!obj || m[y]->k != JV::Obj) break; if (h.size() >= 8 || count_nodes(m[x]) + count_nodes(m[y]) > 300) break;
        auto f = [](const PJ &a, const PJ &b) { PJ r(new json_array()); r.add(a); r.add(b); return r; };
        R n = std::make_shared<N>(); n->k = JV::Obj; n->o = m[x]->o; for (auto &e : m[y]->o) if (n->o.count(e.first)) { R q = std::make_shared<N>(); q->k = JV::Arr; q->a = {n->o[e.first], e.second}; n->o[e.first] = q; } else n->o[e.first] = e.second;
        PJ r = s.coin() ? h[x].merge_with(h[y], f) : merge_with(h[x], h[y], f); h.push_back(r); m.push_back(n); done++; c.label("merge_with"); }
    }
    for (size_t i = 0; i < h.size(); i++) { if (count_nodes(m[i]) > 3000) return; JV want = flat(m[i]), got = from_pfi(h[i]); CHECK(got == want, "after step " << st << " h" << i << " reads as " << got.str() << ", should be " << want.str()); }
  }
  c.nt(done >= 2);
  // equality agrees with the model
  for (size_t i = 0; i < h.size(); i++) for (size_t j = i; j < h.size(); j++) { bool e = flat(m[i]) == flat(m[j]); CHECK(equals(h[i], h[j], false) == e, "h" << i << " equals h" << j << " is not " << e); }
}
static void kinds(Src &s, Ctx &c) {
  JV v = jgen(s, 2); PJ j = to_pfi(v); NOTE(v.str()); c.nt();
  static const PJ::json_type_t want[] = {PJ::Null, PJ::Bool, PJ::Integer, PJ::Float, PJ::String, PJ::Array, PJ::Object};
  CHECK(j.type() == want[v.k], "type() = " << j.type());
  CHECK(is<json_null>(j) == (v.k == JV::Null) && is<json_bool>(j) == (v.k == JV::Bool) && is<json_integer>(j) == (v.k == JV::Int) && is<json_float>(j) == (v.k == JV::Float) && is<json_string>(j) == (v.k == JV::Str) && is<json_array>(j) == (v.k == JV::Arr) && is<json_object>(j) == (v.k == JV::Obj) && is<json_number>(j) == (v.k == JV::Int || v.k == JV::Float), "is<> disagrees with the kind");
  JV w = v; if (s.coin(1, 4)) w = jgen(s, 2); else if (s.coin(2, 3)) {   // a small change somewhere
    JV *p = &w; while ((!p->a.empty() || !p->o.empty()) && !s.coin(1, 4)) { if (!p->a.empty()) p = &p->a[s.choose(p->a.size())]; else { auto it = p->o.begin(); std::advance(it, s.choose(p->o.size())); p = &it->second; } }
    switch (s.choose(5)) { case 0: *p = jgen(s, 0); break; case 1: if (!p->a.empty()) p->a.pop_back(); else if (!p->o.empty()) { JV t = p->o.begin()->second; p->o.erase(p->o.begin()); if (s.coin()) p->o["other"] = t; } break; case 2: if (p->k == JV::Arr) p->a.push_back(jgen(s, 0)); else if (p->k == JV::Obj) p->o["extra"] = JV(); break; case 3: if (p->k == JV::Arr && p->a.size() > 1) std::swap(p->a.front(), p->a.back()); else if (p->k == JV::Str) p->s += 'x'; break; default: if (p->k == JV::Int && p->i != INT64_MAX) p->i++; else if (p->k == JV::Float) p->d = -p->d; else if (p->k == JV::Bool) p->b = !p->b; } }
  PJ k = to_pfi(w); if (v == w) c.label("equal"); else c.label("different");
  CHECK(equals(k, j, false) == (v == w) && (v != w || (j == k && !(j != k))), "equality of " << w.str() << " and " << v.str());
  std::function<bool(const JV &, const JV &)> loose = [&](const JV &a, const JV &b) { if (a.k == JV::Int && b.k == JV::Float) return (double)a.i == b.d; if (a.k == JV::Float && b.k == JV::Int) return a.d == (double)b.i; if (a.k != b.k) return false; if (a.k == JV::Arr) { if (a.a.size() != b.a.size()) return false; for (size_t q = 0; q < a.a.size(); q++) if (!loose(a.a[q], b.a[q])) return false; return true; } if (a.k == JV::Obj) { if (a.o.size() != b.o.size()) return false; for (auto &x : a.o) if (!b.o.count(x.first) || !loose(x.second, b.o.at(x.first))) return false; return true; } return a == b; };
  if (s.coin(1, 3)) { std::function<void(JV &)> fl = [&](JV &x) { if (x.k == JV::Int && std::llabs(x.i) < 1000000000) x = JV::of((double)x.i); for (auto &y : x.a) fl(y); for (auto &y : x.o) fl(y.second); }; fl(w); k = to_pfi(w); }
  CHECK(equals(j, k) == loose(v, w) && equals(k, j) == loose(v, w) && (j == k) == loose(v, w) && (j != k) != loose(v, w), "numeric equality of " << v.str() << " and " << w.str());
  CHECK(equals(j, k, false) == (v == w), "strict equality of " << v.str() << " and " << w.str());
  // numeric equality: an integer equals a float of the same value
  int64_t i = s.range(-1000000, 1000000); PJ a(new json_integer(i)), b(new json_float((double)i));
  CHECK(a == b && b == a && !equals(a, b, false) && !(a != b), "numeric equality");
  bool threw = false; try { PJ bad(new json_float(s.coin() ? INFINITY : NAN)); } catch (const json_bad_cast_any &) { threw = true; } CHECK(threw, "a non-finite float value is accepted");
}
Suite pbt::suite() {
  Suite u; u.property = "C05";
  u.rule = "random histories of up to 31 edits and queries over up to 8 handles into shared JSON documents (acyclic), compared after every step with a model of shared reference trees; non-trivial = 2+ effective edits";
  u.props = {{"history", history, 60000, 1500000, true}, {"kinds", kinds, 40000, 500000, false}};
  u.assumptions = {"array indexes are in range and documents are not made cyclic: both are the caller's duty"};
  return u;
}
