// C48: shared, weak and cast pointers: histories against a model that counts owners
#include "pbt.h"
#include <map>
#include <set>
#include <lang/enable_shared_from_this.h>
#include <lang/shared_ptr.h>
#include <lang/weak_ptr.h>
using namespace pbt; using pfi::lang::bad_weak_ptr; using pfi::lang::shared_ptr; using pfi::lang::weak_ptr;
struct OtherModel;
static std::map<int, int> alive;             // id -> how often it may still be destroyed (1), gone: erased
static std::map<int, std::vector<int>> deleted;   // id -> tags of the deleters that ran
static std::string trouble;
struct Base : pfi::lang::enable_shared_from_this<Base> { int id; explicit Base(int i) : id(i) { alive[i] = 1; } Base(const Base &b, int i) : pfi::lang::enable_shared_from_this<Base>(b), id(i) { alive[i] = 1; } Base &operator=(const Base &b) { pfi::lang::enable_shared_from_this<Base>::operator=(b); return *this; } virtual ~Base() { if (!alive.erase(id)) trouble = "an object is destroyed twice"; } virtual int kind() const { return 0; } };
struct Derived : Base { int more; explicit Derived(int i) : Base(i), more(i * 3) {} int kind() const { return 1; } };
struct Plain { int id; explicit Plain(int i) : id(i) { alive[i] = 1; } ~Plain() { if (!alive.erase(id)) trouble = "an object is destroyed twice"; } };   // no virtual destructor
static std::set<int> whole; struct PlainDerived : Plain { std::string s; explicit PlainDerived(int i) : Plain(i), s(100, 'x') { whole.insert(i); } ~PlainDerived() { whole.erase(id); } };
struct NullDel { int *ran; explicit NullDel(int *r) : ran(r) {} void operator()(Plain *p) const { ++*ran; if (p) trouble = "a deleter is given an object its pointer does not have"; } };
struct Del { int tag; explicit Del(int t) : tag(t) {} void operator()(Base *p) const { deleted[p->id].push_back(tag); delete p; } };
typedef shared_ptr<Base> SB; typedef shared_ptr<Derived> SD; typedef shared_ptr<const Base> SC; typedef shared_ptr<Base, OtherModel> SO; typedef weak_ptr<Base> WB; typedef weak_ptr<Derived> WD; typedef weak_ptr<const Base> WC;
struct Obj { int kind = 0, tag = 0; int owners = 0; const void *at = nullptr; };
enum { NB = 4, ND = 2, NC = 2, NO = 2, NWB = 3, NWD = 2, NWC = 1 };
struct World {
  SB b[NB]; SD d[ND]; SC k[NC]; SO o[NO]; WB wb[NWB]; WD wd[NWD]; WC wc[NWC]; int mb[NB], md[ND], mk[NC], mo[NO], mwb[NWB], mwd[NWD], mwc[NWC]; std::map<int, Obj> obj;
  World() { for (auto &x : mb) x = 0; for (auto &x : md) x = 0; for (auto &x : mk) x = 0; for (auto &x : mo) x = 0; for (auto &x : mwb) x = 0; for (auto &x : mwd) x = 0; for (auto &x : mwc) x = 0; }
  void set(int &slot, int id) { if (slot == id) return; int old = slot; slot = id; if (id) obj[id].owners++; if (old) obj[old].owners--; }
  bool gone(int id) { return id == 0 || obj[id].owners == 0; }
  template <class P> void one(const P &p, int id, const char *what, int i) {
    CHECK((bool)p == (id != 0), what << " " << i << " is " << (p ? "set" : "empty")); if (!id) { CHECK(!p.get() && p.use_count() == 0, what << " " << i << " is empty but has an object"); return; }
    CHECK(p->id == id && (*p).id == id && p.get()->id == id, what << " " << i << " points to object " << p->id << ", not " << id); CHECK((const void *)p.get() == obj[id].at, what << " " << i << " points to another address"); CHECK(p.use_count() == obj[id].owners, what << " " << i << " counts " << p.use_count() << " owners, there are " << obj[id].owners); CHECK(p.unique() == (obj[id].owners == 1), "unique()"); }
  template <class W> void weak(const W &w, int id, const char *what, int i) { CHECK(w.expired() == gone(id), what << " " << i << " of object " << id << (w.expired() ? " has expired though it is owned" : " has not expired though it is gone")); CHECK(w.use_count() == (gone(id) ? 0 : obj[id].owners), what << " " << i << " counts " << w.use_count() << " owners"); auto l = w.lock(); if (gone(id)) CHECK(!l, "an expired weak pointer was locked"); else CHECK(l && l->id == id && l.use_count() == obj[id].owners + 1, "locking " << what << " " << i << " does not give object " << id); }
  void check() {
    CHECK(trouble.empty(), trouble); for (auto &x : obj) { bool on = alive.count(x.first); CHECK(on == (x.second.owners > 0), "object " << x.first << " with " << x.second.owners << " owners " << (on ? "still exists" : "was destroyed")); auto &dl = deleted[x.first]; if (x.second.tag) CHECK(dl.size() == (on ? 0u : 1u) && (dl.empty() || dl[0] == x.second.tag), "the deleter of object " << x.first << " ran " << dl.size() << " times"); else CHECK(dl.empty(), "object " << x.first << " was deleted by another's deleter"); }
    for (int i = 0; i < NB; i++) one(b[i], mb[i], "pointer", i); for (int i = 0; i < ND; i++) one(d[i], md[i], "derived pointer", i); for (int i = 0; i < NC; i++) one(k[i], mk[i], "const pointer", i); for (int i = 0; i < NO; i++) one(o[i], mo[i], "pointer of another threading model", i); for (int i = 0; i < NWB; i++) weak(wb[i], mwb[i], "weak pointer", i); for (int i = 0; i < NWD; i++) weak(wd[i], mwd[i], "weak derived pointer", i); for (int i = 0; i < NWC; i++) weak(wc[i], mwc[i], "weak const pointer", i);
    for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { CHECK((b[i] == b[j]) == (mb[i] == mb[j]) && (b[i] != b[j]) == (mb[i] != mb[j]), "comparison of two pointers"); if (mb[i] && mb[i] == mb[j]) CHECK(!(b[i] < b[j]), "order of equal pointers"); if (mb[i] != mb[j]) CHECK((b[i] < b[j]) != (b[j] < b[i]), "order of two pointers"); }
  }
};
static void history(Src &s, Ctx &c) {
  alive.clear(); deleted.clear(); trouble.clear(); std::set<int> raw; { World w; int next = 1; size_t n = s.size(s.coin(1, 10) ? 120 : 40); c.nt(n > 4);
    for (size_t t = 0; t < n; t++) {
      int i = (int)s.choose(NB), j = (int)s.choose(NB), di = (int)s.choose(ND), ki = (int)s.choose(NC), oi = (int)s.choose(NO), wi = (int)s.choose(NWB), wj = (int)s.choose(NWB), wdi = (int)s.choose(NWD);
      auto fresh = [&](int kind, int tag, const void *at) { int id = next++; w.obj[id].kind = kind; w.obj[id].tag = tag; w.obj[id].at = at; return id; };
      switch (s.choose(26)) {
        case 0: { Base *p = new Base(next); NOTE("p" << i << " = new base " << next); w.b[i] = SB(p); w.set(w.mb[i], fresh(0, 0, p)); break; }
        case 1: { Derived *p = new Derived(next); NOTE("p" << i << " = new derived " << next); w.b[i] = SB(p); w.set(w.mb[i], fresh(1, 0, p)); break; }
        case 2: { Derived *p = new Derived(next); NOTE("d" << di << " = new derived " << next); w.d[di] = SD(p); w.set(w.md[di], fresh(1, 0, p)); break; }
        case 3: { bool dv = s.coin(); int tag = 1 + (int)s.choose(1000); Base *p = dv ? new Derived(next) : new Base(next); NOTE("p" << i << " = new object " << next << " with a deleter"); w.b[i] = SB(p, Del(tag)); w.set(w.mb[i], fresh(dv, tag, p)); c.label("deleter"); Del *g = pfi::lang::get_deleter<Del>(w.b[i]); CHECK(g && g->tag == tag, "the deleter of a new pointer cannot be obtained"); break; }
        case 4: NOTE("p" << i << " = p" << j); w.b[i] = w.b[j]; w.set(w.mb[i], w.mb[j]); break;
        case 5: { NOTE("p" << i << " = copy of p" << j); SB x(w.b[j]); if (w.mb[j]) CHECK(x.use_count() == w.obj[w.mb[j]].owners + 1, "a copy does not count as an owner"); w.b[i] = x; w.set(w.mb[i], w.mb[j]); break; }
        case 6: NOTE("p" << i << " = d" << di); if (s.coin()) w.b[i] = w.d[di]; else w.b[i] = SB(w.d[di]); w.set(w.mb[i], w.md[di]); break;
        case 7: NOTE("k" << ki << " = p" << j); if (s.coin()) w.k[ki] = w.b[j]; else w.k[ki] = SC(w.b[j]); w.set(w.mk[ki], w.mb[j]); break;
        case 8: NOTE("o" << oi << " = p" << j); if (s.coin()) w.o[oi] = w.b[j]; else w.o[oi] = SO(w.b[j]); w.set(w.mo[oi], w.mb[j]); break;
        case 9: NOTE("p" << i << " = o" << oi); if (s.coin()) w.b[i] = w.o[oi]; else w.b[i] = SB(w.o[oi]); w.set(w.mb[i], w.mo[oi]); break;
        case 10: NOTE("reset p" << i); w.b[i].reset(); w.set(w.mb[i], 0); break;
        case 11: switch (s.choose(3)) { case 0: NOTE("d" << di << " = empty"); w.d[di] = SD(); w.set(w.md[di], 0); break; case 1: NOTE("k" << ki << " = empty"); w.k[ki] = SC(); w.set(w.mk[ki], 0); break; default: NOTE("o" << oi << " = empty"); w.o[oi] = SO(); w.set(w.mo[oi], 0); } break;
        case 12: NOTE("swap p" << i << " p" << j); w.b[i].swap(w.b[j]); std::swap(w.mb[i], w.mb[j]); break;
        case 13: { int id = w.mb[i]; if (id && w.obj[id].kind == 1) { NOTE("d" << di << " = static cast of p" << i); w.d[di] = pfi::lang::static_pointer_cast<Derived>(w.b[i]); w.set(w.md[di], id); c.label("cast"); } break; }
        case 14: { int id = w.mb[i]; NOTE("d" << di << " = dynamic cast of p" << i); w.d[di] = pfi::lang::dynamic_pointer_cast<Derived>(w.b[i]); w.set(w.md[di], id && w.obj[id].kind == 1 ? id : 0); c.label("cast"); break; }
        case 15: NOTE("p" << i << " = const cast of k" << ki); w.b[i] = pfi::lang::const_pointer_cast<Base>(w.k[ki]); w.set(w.mb[i], w.mk[ki]); c.label("cast"); break;
        case 16: { NOTE("d" << di << " = dynamic cast of o" << oi); int id = w.mo[oi]; w.d[di] = pfi::lang::dynamic_pointer_cast<Derived>(w.o[oi]); w.set(w.md[di], id && w.obj[id].kind == 1 ? id : 0); break; }
        case 17: NOTE("w" << wi << " = p" << i); if (s.coin()) w.wb[wi] = w.b[i]; else w.wb[wi] = WB(w.b[i]); w.mwb[wi] = w.mb[i]; c.label("weak"); break;
        case 18: NOTE("w" << wi << " = w" << wj); if (s.coin()) w.wb[wi] = w.wb[wj]; else { WB x(w.wb[wj]); w.wb[wi] = x; } w.mwb[wi] = w.mwb[wj]; break;
        case 19: if (s.coin()) { NOTE("wd" << wdi << " = d" << di); w.wd[wdi] = w.d[di]; w.mwd[wdi] = w.md[di]; } else { NOTE("w" << wi << " = wd" << wdi); if (s.coin()) w.wb[wi] = w.wd[wdi]; else w.wb[wi] = WB(w.wd[wdi]); w.mwb[wi] = w.gone(w.mwd[wdi]) ? 0 : w.mwd[wdi]; } break;
        case 20: NOTE("p" << i << " = lock of w" << wi); w.b[i] = w.wb[wi].lock(); w.set(w.mb[i], w.gone(w.mwb[wi]) ? 0 : w.mwb[wi]); c.label("lock"); break;
        case 21: { NOTE("p" << i << " = pointer from w" << wi); int id = w.mwb[wi]; bool th = false; try { SB x(w.wb[wi]); w.b[i] = x; } catch (const bad_weak_ptr &e) { th = true; CHECK(e.what() && *e.what(), "the error has no message"); } CHECK(th == w.gone(id), "a pointer made from " << (w.gone(id) ? "an expired weak pointer raises no error" : "a live weak pointer raises an error")); if (!th) w.set(w.mb[i], id); else c.label("expired"); break; }
        case 22: { int id = w.mb[i]; if (!id) break; NOTE("p" << j << " = shared_from_this of p" << i); Base *p = w.b[i].get(); w.b[j] = p->shared_from_this(); w.set(w.mb[j], id); c.label("from this"); break; }
        case 23: { int id = w.mk[ki] ? w.mk[ki] : w.mo[oi]; if (!id) break; NOTE("k" << ki << " = shared_from_this, const, of object " << id); const Base *p = w.mk[ki] ? w.k[ki].get() : w.o[oi].get(); SC x = p->shared_from_this(); w.k[ki] = x; w.set(w.mk[ki], id); c.label("from this"); break; }
        case 24: { NOTE("an object without owner"); int id = next++; bool copy = s.coin() && w.mb[i]; { Base q(id); if (copy) { Base r(*w.b[i], next++); bool th = false; try { r.shared_from_this(); } catch (const bad_weak_ptr &) { th = true; } CHECK(th, "a copy of an owned object is taken to be owned"); } if (w.mb[i] && s.coin()) q = *w.b[i]; bool th = false; try { q.shared_from_this(); } catch (const bad_weak_ptr &) { th = true; } CHECK(th, "shared_from_this of an object nobody owns raises no error"); const Base &cq = q; th = false; try { cq.shared_from_this(); } catch (const bad_weak_ptr &) { th = true; } CHECK(th, "shared_from_this of a const object nobody owns raises no error"); if (w.mb[i] && s.coin()) { *w.b[i] = q; CHECK(w.b[i]->shared_from_this() == w.b[i], "assigning to an object changes its owner"); } } CHECK(!alive.count(id), "left over"); break; }
        default: { switch (s.choose(3)) { case 0: NOTE("w" << wi << " reset"); w.wb[wi].reset(); w.mwb[wi] = 0; break; case 1: { NOTE("wk = k" << ki); w.wc[0] = w.k[ki]; w.mwc[0] = w.mk[ki]; break; } default: { NOTE("wk = w" << wi); w.wc[0] = w.wb[wi]; w.mwc[0] = w.gone(w.mwb[wi]) ? 0 : w.mwb[wi]; } } }
      }
      w.check();
    }
    for (int i = 0; i < NB; i++) if (w.mb[i]) { Del *g = pfi::lang::get_deleter<Del>(w.b[i]); int tag = w.obj[w.mb[i]].tag; CHECK((g != nullptr) == (tag != 0) && (!g || g->tag == tag), "get_deleter of object " << w.mb[i]); CHECK(!pfi::lang::get_deleter<int>(w.b[i]), "a deleter of another type was found"); }
    std::set<SB> ordered(w.b, w.b + NB); std::set<int> ids(w.mb, w.mb + NB); CHECK(ordered.size() == ids.size(), "a set of the pointers has " << ordered.size() << " elements for " << ids.size() << " objects"); }
  CHECK(trouble.empty(), trouble); CHECK(alive.empty(), alive.size() << " objects are never destroyed");
}
static void plain(Src &s, Ctx &c) {   // ownership remembers the type the object was created with
  alive.clear(); whole.clear(); trouble.clear(); if (s.coin(1, 4)) { int ran = 0; { shared_ptr<Plain> a((Plain *)nullptr, NullDel(&ran)); shared_ptr<Plain> b(a); CHECK(!a && a.use_count() == 2, "a null pointer with a deleter has " << a.use_count() << " owners, not 2"); a.reset(); CHECK(!ran, "the deleter ran although an owner is left"); } CHECK(ran == 1, "the deleter of a null pointer ran " << ran << " times"); c.label("null with a deleter"); }
  { std::vector<shared_ptr<Plain>> v; std::vector<shared_ptr<void>> u; size_t n = s.size(12); c.nt(n > 1); int id = 1; std::vector<int> m, mu;
    for (size_t i = 0; i < n; i++) switch (s.choose(4)) { case 0: NOTE("plain"); v.push_back(shared_ptr<Plain>(new Plain(id))); m.push_back(id++); break; case 1: NOTE("derived as plain"); v.push_back(shared_ptr<Plain>(new PlainDerived(id))); m.push_back(id++); break; case 2: if (v.size()) { size_t k = s.choose(v.size()); NOTE("drop " << k); v.erase(v.begin() + k); m.erase(m.begin() + k); } break; default: if (v.size()) { size_t k = s.choose(v.size()); NOTE("as void " << k); if (s.coin()) u.push_back(v[k]); else u.push_back(shared_ptr<void>(v[k])); mu.push_back(m[k]); CHECK(pfi::lang::static_pointer_cast<Plain>(u.back())->id == m[k], "cast back from void"); c.label("void"); } }
    std::set<int> want(m.begin(), m.end()); want.insert(mu.begin(), mu.end()); for (int i = 1; i < id; i++) CHECK((bool)alive.count(i) == (bool)want.count(i), "object " << i << (alive.count(i) ? " still exists" : " was destroyed too early")); }
  CHECK(trouble.empty(), trouble); CHECK(alive.empty(), alive.size() << " objects are never destroyed"); CHECK(whole.empty(), whole.size() << " objects of a derived class are destroyed as their base");
}
Suite pbt::suite() {
  Suite u; u.property = "C48";
  u.rule = "Histories of up to 120 creations, copies, conversions, casts, swaps, resets, locks and shared_from_this calls over 16 shared and weak pointers to a class, its subclass, const and another threading model, checked after every step against a model of who owns what: owner counts, live objects, deleters, expiry and errors. Non-trivial: more than 4 steps.";
  u.props = {{"history", history, 30000, 800000, true}, {"plain", plain, 5000, 100000, true}};
  u.assumptions = {"pointers of one object are not made from its raw address twice"};
  return u;
}
