// C54: the clients that genrpc writes speak the protocol of the service they were made for
#include "pbt.h"
#include "php.h"
#include <arpa/inet.h>
#include <fstream>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <gen_php.h>
#include <gen_hs.h>
#include <gen_null.h>
namespace h {
using pbt::Src; using pbt::Ctx; using pbt::Fail; using pbt::show; namespace ser = pfi::data::serialization; typedef pfi::lang::shared_ptr<ser::type_rep> Rep; typedef std::string S;
// ---- types and values of the model ----
struct Ty; typedef std::shared_ptr<Ty> T; struct Ty { enum K { Int, Dbl, Str, Arr, Map, Cls, Char } k; int size = 4; bool sign = true; T a, b; S name; std::vector<std::pair<S, T>> m; };
struct Val { int64_t i = 0; double d = 0; S s; std::vector<Val> e; };   // arrays: e; maps: key, value, key, value; classes: members
static T mk(Ty::K k) { T t = std::make_shared<Ty>(); t->k = k; return t; }
static S text(const T &t) { switch (t->k) { case Ty::Int: return S(t->sign ? "int" : "uint") + std::to_string(t->size); case Ty::Dbl: return "double"; case Ty::Str: return "string"; case Ty::Char: return "char"; case Ty::Arr: return "[" + text(t->a) + "]"; case Ty::Map: return "{" + text(t->a) + ":" + text(t->b) + "}"; case Ty::Cls: { if (!t->name.empty()) return t->name; S r = "("; for (auto &x : t->m) r += x.first + ":" + text(x.second) + " "; return r + ")"; } } return "?"; }
static Rep rep(const T &t) { switch (t->k) { case Ty::Int: return Rep(new ser::int_type(t->sign, t->size)); case Ty::Dbl: return Rep(new ser::float_type()); case Ty::Str: return Rep(new ser::string_type()); case Ty::Char: return Rep(new ser::char_type()); case Ty::Arr: return Rep(new ser::array_type(rep(t->a))); case Ty::Map: return Rep(new ser::map_type(rep(t->a), rep(t->b))); case Ty::Cls: { ser::class_type *c = new ser::class_type(); Rep r(c); c->set_name(t->name); for (auto &x : t->m) c->add(x.first, rep(x.second)); return r; } } return Rep(); }
static T gen_type(Src &s, const std::vector<T> &pool, bool hs, bool anon, int d) {
  switch (s.choose(d <= 0 ? 4 : 9)) { default: { T t = mk(Ty::Int); if (!hs) { t->size = 1 << s.choose(3); t->sign = !s.coin(); } return t; } case 1: return mk(Ty::Str); case 2: return mk(Ty::Dbl); case 3: if (!pool.empty()) return s.pick(pool); return mk(hs ? Ty::Char : Ty::Str);
    case 4: case 5: { T t = mk(Ty::Arr); t->a = gen_type(s, pool, hs, anon, d - 1); return t; } case 6: { T t = mk(Ty::Map); t->a = mk(s.coin() ? Ty::Str : Ty::Int); if (t->a->k == Ty::Int && !hs) { t->a->size = 1 << s.choose(3); t->a->sign = s.coin(); } t->b = gen_type(s, pool, hs, anon, d - 1); return t; }
    case 7: if (!pool.empty()) return s.pick(pool); return mk(Ty::Str); case 8: { if (!anon) return mk(Ty::Dbl); T t = mk(Ty::Cls); size_t n = 1 + s.choose(3); for (size_t i = 0; i < n; i++) t->m.push_back({s.coin() ? "" : S("q") + (char)('a' + i), gen_type(s, pool, hs, anon, d - 1)}); return t; } } }
static long room;   // how much the values of a case may still take together
static Val gen_val(Src &s, const T &t) { Val v; room -= 4; switch (t->k) { case Ty::Int: { uint64_t u = (uint64_t)s.i64(); int sh = 64 - 8 * t->size; v.i = t->sign ? (int64_t)(u << sh) >> sh : (int64_t)(u << sh >> sh); break; } case Ty::Char: v.i = (int64_t)s.choose(256); break; case Ty::Dbl: v.d = s.coin(1, 8) ? s.pick<double>({INFINITY, -INFINITY, -0.0, 0.0, 1.0, -1.0}) : s.finite(); break; case Ty::Str: v.s = s.coin(1, 12) ? s.blob(s.edge_len((size_t)std::max(20L, std::min(30000L, room)))) : s.coin(1, 3) ? std::to_string(s.range(-20, 300)) : s.bytes(12); room -= (long)v.s.size(); break; case Ty::Arr: { size_t n = room < 0 ? 0 : s.size(5); if (s.coin(1, 40) && room > 3000) n = s.edge_len(300); for (size_t i = 0; i < n; i++) v.e.push_back(gen_val(s, t->a)); break; }
    case Ty::Map: { size_t n = room < 0 ? 0 : s.size(5); std::set<S> seen; for (size_t i = 0; i < n; i++) { Val k = gen_val(s, t->a), x = gen_val(s, t->b); if (!seen.insert(t->a->k == Ty::Int ? std::to_string(k.i) : k.s).second) continue; v.e.push_back(k); v.e.push_back(x); } break; } case Ty::Cls: for (auto &x : t->m) v.e.push_back(gen_val(s, x.second)); break; } return v; }
static void le(S &o, uint64_t u, int n) { for (int i = 0; i < n; i++) o += (char)(u >> (8 * i)); }
static void enc(S &o, const T &t, const Val &v) { switch (t->k) { case Ty::Int: le(o, (uint64_t)v.i, t->size); break; case Ty::Char: le(o, (uint64_t)v.i, 1); break; case Ty::Dbl: { uint64_t u; memcpy(&u, &v.d, 8); le(o, u, 8); break; } case Ty::Str: le(o, v.s.size(), 4); o += v.s; break; case Ty::Arr: le(o, v.e.size(), 4); for (auto &x : v.e) enc(o, t->a, x); break; case Ty::Map: le(o, v.e.size() / 2, 4); for (size_t i = 0; i < v.e.size(); i++) enc(o, i % 2 ? t->b : t->a, v.e[i]); break; case Ty::Cls: for (size_t i = 0; i < t->m.size(); i++) enc(o, t->m[i].second, v.e[i]); break; } }
static void encs(S &o, const S &x) { le(o, x.size(), 4); o += x; }
struct Short {};
struct In { const S &d; size_t p = 0; S take(size_t n) { if (d.size() - p < n) throw Short(); p += n; return d.substr(p - n, n); } uint64_t num(int n) { S b = take((size_t)n); uint64_t u = 0; for (int i = n; i-- > 0;) u = u << 8 | (unsigned char)b[(size_t)i]; return u; } };
// a canonical text of a value; maps sorted by key
static S num(double d) { char b[40]; snprintf(b, 40, "%a", d); return d != d ? "nan" : b; }
static S join(const T &t, std::vector<std::pair<S, S>> x) { (void)t; std::sort(x.begin(), x.end()); S r = "{"; for (auto &y : x) r += y.first + "=" + y.second + ","; return r + "}"; }
static S canon(const T &t, const Val &v) { switch (t->k) { case Ty::Int: case Ty::Char: return std::to_string(v.i); case Ty::Dbl: return num(v.d); case Ty::Str: return show(v.s, 100000); case Ty::Arr: { S r = "["; for (auto &x : v.e) r += canon(t->a, x) + ","; return r + "]"; } case Ty::Map: { std::vector<std::pair<S, S>> x; for (size_t i = 0; i < v.e.size(); i += 2) x.push_back({canon(t->a, v.e[i]), canon(t->b, v.e[i + 1])}); return join(t, x); } case Ty::Cls: { S r = "<" + t->name; for (size_t i = 0; i < t->m.size(); i++) r += " " + canon(t->m[i].second, v.e[i]); return r + ">"; } } return ""; }
static S dec(const T &t, In &d) { switch (t->k) { case Ty::Int: { uint64_t u = d.num(t->size); int sh = 64 - 8 * t->size; return std::to_string(t->sign ? (int64_t)(u << sh) >> sh : (int64_t)u); } case Ty::Char: return std::to_string(d.num(1)); case Ty::Dbl: { uint64_t u = d.num(8); double x; memcpy(&x, &u, 8); return num(x); } case Ty::Str: { size_t n = d.num(4); return show(d.take(n), 100000); } case Ty::Arr: { size_t n = d.num(4); S r = "["; for (size_t i = 0; i < n; i++) r += dec(t->a, d) + ","; return r + "]"; } case Ty::Map: { size_t n = d.num(4); std::vector<std::pair<S, S>> x; for (size_t i = 0; i < n; i++) { S k = dec(t->a, d); x.push_back({k, dec(t->b, d)}); } return join(t, x); } case Ty::Cls: { S r = "<" + t->name; for (auto &x : t->m) r += " " + dec(x.second, d); return r + ">"; } } return ""; }
// ---- interfaces ----
struct Method { S name; T ret; std::vector<T> args; }; struct Service { S name; int version; std::vector<Method> m; };
struct Refl : pfi::network::rpc::reflect_base { Refl(const Service &s) { set_name(s.name); set_version(s.version); for (auto &x : s.m) { std::vector<Rep> a; for (auto &t : x.args) a.push_back(rep(t)); mem[x.name] = std::make_pair(rep(x.ret), a); } } };
static S fresh(Src &s, std::set<S> &used, std::initializer_list<const char *> pool) { S n = s.pick(std::vector<S>(pool.begin(), pool.end())); while (!used.insert(php::lower(n)).second) n += (char)('a' + s.choose(3)); return n; }
static bool has_anon(const T &t) { if (t->k == Ty::Arr) return has_anon(t->a); if (t->k == Ty::Map) return has_anon(t->b); if (t->k == Ty::Cls) { if (t->name.empty()) return true; for (auto &x : t->m) if (has_anon(x.second)) return true; } return false; }
static std::vector<T> gen_classes(Src &s, bool hs) { std::vector<T> pool; size_t n = s.choose(4); std::set<S> used; for (size_t i = 0; i < n; i++) { T t = mk(Ty::Cls); t->name = fresh(s, used, {"Point", "point_list", "rec", "Rec2", "A", "b", "item"}); std::set<S> mu; size_t k = (hs ? 1 : 0) + s.choose(5); for (size_t j = 0; j < k; j++) { S mn = !hs && s.coin(1, 8) ? "" : fresh(s, mu, {"x", "y", "name", "id", "X", "elems", "buf", "value_", "a0"}); t->m.push_back({mn, gen_type(s, pool, hs, !hs && s.coin(1, 6), 2)}); } pool.push_back(t); } return pool; }
static Service gen_service(Src &s, const std::vector<T> &pool, std::set<S> &names, bool hs) { Service v; v.name = fresh(s, names, {"svc", "Search", "kv_store", "a"}); v.version = s.coin(1, 3) ? 1 : (int)s.i64(); size_t n = s.choose(5); std::set<S> mu; for (size_t i = 0; i < n; i++) { Method m; m.name = fresh(s, mu, {"get", "put", "x", "x_a0", "ping_pong", "find_all", "int", "ret", "x_ret"}); m.ret = gen_type(s, pool, hs, !hs && s.coin(1, 4), 3); size_t k = s.coin(1, 12) ? 9 + s.choose(3) : s.choose(5); for (size_t j = 0; j < k; j++) { T t = gen_type(s, pool, hs, false, 3); if (has_anon(t)) t = mk(Ty::Str); m.args.push_back(t); } v.m.push_back(m); } return v; }
static S describe(const std::vector<Service> &sv, const std::vector<T> &pool) { S r; for (auto &t : pool) { r += "class " + t->name + "{"; for (auto &x : t->m) r += (x.first.empty() ? "(no name)" : x.first) + ":" + text(x.second) + " "; r += "} "; } for (auto &v : sv) { r += "service " + v.name + " version " + std::to_string(v.version) + ": "; for (auto &m : v.m) { r += text(m.ret) + " " + m.name + "("; for (size_t i = 0; i < m.args.size(); i++) r += (i ? "," : "") + text(m.args[i]); r += "); "; } } return r; }
// ---- scratch ----
static S slurp(const S &f) { std::ifstream i(f.c_str(), std::ios::binary); if (!i) FAIL("there is no file " << f.substr(f.rfind('/') + 1)); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static const php::Interp *library() { static php::Interp *l = nullptr; if (!l) { S code = slurp(S(GENRPC_DIR) + "/pfi_rpc.php"); l = new php::Interp; l->run(code); } return l; }   // read once
struct Scratch { S dir, old; Scratch() { const char *t = getenv("PBT_TMP"); dir = S(t ? t : "/tmp") + "/c54-" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); char b[4096]; old = getcwd(b, sizeof b) ? b : "/"; if (chdir(dir.c_str())) throw Fail("harness: chdir"); } S path(const S &f) { return dir + "/" + f; } ~Scratch() { if (chdir(old.c_str())) {} } };
struct Gone { S f; ~Gone() { unlink(f.c_str()); } };
// ---- PHP values ----
static php::V to_php(Src &s, php::Interp &in, const T &t, const Val &v) { switch (t->k) { case Ty::Int: case Ty::Char: return php::V::n(v.i); case Ty::Dbl: if (v.d == std::floor(v.d) && std::fabs(v.d) < 1e6 && !(v.d == 0 && std::signbit(v.d)) && s.coin()) return php::V::n((int64_t)v.d); return php::V::f(v.d); case Ty::Str: return php::V::str(v.s); case Ty::Arr: { php::V r = php::V::arr(); for (auto &x : v.e) { php::V y = to_php(s, in, t->a, x); r.a->push() = y; } return r; } case Ty::Map: { php::V r = php::V::arr(); for (size_t i = 0; i < v.e.size(); i += 2) { php::V y = to_php(s, in, t->b, v.e[i + 1]); r.a->get(php::key(to_php(s, in, t->a, v.e[i]))) = y; } return r; }
    case Ty::Cls: { php::V o = in.make(in.klass(t->name), {}); CHECK(o.o->p.size() == t->m.size(), "class " << t->name << " of the client has " << o.o->p.size() << " members, the type has " << t->m.size()); for (size_t i = 0; i < t->m.size(); i++) { CHECK(t->m[i].first.empty() || o.o->p[i].first == t->m[i].first, "member " << i << " of " << t->name << " is called " << o.o->p[i].first << " instead of " << t->m[i].first); php::V y = to_php(s, in, t->m[i].second, v.e[i]); o.o->p[i].second = y; } return o; } } return php::V(); }
static S from_php(const T &t, const php::V &v) { auto wrong = [&](const char *w) -> S { return S("(no ") + w + ")"; }; switch (t->k) { case Ty::Int: case Ty::Char: return v.t == php::V::Int ? std::to_string(v.i) : v.t == php::V::Dbl && v.d == std::floor(v.d) && std::fabs(v.d) < 1e16 ? std::to_string((int64_t)v.d) : wrong("integer"); case Ty::Dbl: return v.t == php::V::Dbl ? num(v.d) : wrong("float"); case Ty::Str: return v.t == php::V::Str ? show(v.s, 100000) : wrong("string"); case Ty::Arr: { if (v.t != php::V::Array) return wrong("array"); S r = "["; for (size_t i = 0; i < v.a->e.size(); i++) { php::V *x = v.a->find(php::Key{true, (int64_t)i, ""}); if (!x) return wrong("list"); r += from_php(t->a, *x) + ","; } return r + "]"; }
    case Ty::Map: { if (v.t != php::V::Array) return wrong("array"); std::vector<std::pair<S, S>> x; for (auto &e : v.a->e) { php::V k = php::unkey(e.first); x.push_back({t->a->k == Ty::Str ? show(php::to_s(k), 100000) : from_php(t->a, k), from_php(t->b, e.second)}); } return join(t, x); }
    case Ty::Cls: { if (v.t != php::V::Object) return wrong("object"); if (!t->name.empty() && v.o->c->name != t->name) return "(an object of class " + v.o->c->name + ")"; if (v.o->p.size() != t->m.size()) return wrong("object of that many members"); S r = "<" + t->name; for (size_t i = 0; i < t->m.size(); i++) { if (!t->m[i].first.empty() && v.o->p[i].first != t->m[i].first) return "(member " + v.o->p[i].first + ")"; r += " " + from_php(t->m[i].second, v.o->p[i].second); } return r + ">"; } } return ""; }
static php::Interp &unsupported(Ctx &c, const S &w) { (void)w; c.label("not interpretable"); static php::Interp i; return i; }
// ---- a PHP client against a server of the harness ----
struct Far { const Service *sv = nullptr; S in, out; size_t chunk = 8192; bool pong = true; S code = "OK"; Val val; std::vector<S> seen; Src *s = nullptr;
  void process() { for (;;) { In d{in}; try { size_t n = d.num(4); S name = d.take(n); if (name == "<<<PING>>>") { S o; encs(o, pong ? "<<<PONG>>>" : "<<<PUNG>>>"); out += o; seen.push_back("ping"); in.erase(0, d.p); continue; } int ver = (int)(int32_t)d.num(4); S r = name + " version " + std::to_string(ver); const Method *m = nullptr; for (auto &x : sv->m) if (x.name == name) m = &x; if (m) for (auto &t : m->args) r += " " + dec(t, d); seen.push_back(r); in.erase(0, d.p); encs(out, code); if (code == "OK" && m) enc(out, m->ret, val); } catch (Short &) { return; } } } };
static void php_client(Src &s, Ctx &c) { room = 50000;
  std::vector<T> pool = gen_classes(s, false); std::vector<Service> sv; std::set<S> names; for (auto &t : pool) names.insert(php::lower(t->name)); size_t ns = 1 + (s.coin(1, 4) ? s.choose(3) : 0); for (size_t i = 0; i < ns; i++) sv.push_back(gen_service(s, pool, names, false)); NOTE(describe(sv, pool)); std::vector<std::shared_ptr<Refl>> keep; std::vector<pfi::network::rpc::reflect_base *> refs; for (auto &x : sv) { keep.push_back(std::make_shared<Refl>(x)); refs.push_back(keep.back().get()); }
  Scratch dir; S base = s.pick<S>({"svc", "out", "Sig"}); Gone gone{dir.path(base + ".php")}; php_generator::generate(refs, base); S code = slurp(dir.path(base + ".php")); size_t nm = 0; for (auto &x : sv) nm += x.m.size(); c.nt(nm > 0); c.label("methods", nm); c.label("services", ns);
  php::Interp in; in.file = [&](const S &f) -> S { throw php::Fatal{"includes " + f}; }; std::vector<Far> conn; std::map<S, const Service *> at; bool refuse = false; in.open = [&](const S &hst, int64_t port) { if (refuse) return php::V::b(false); Far f; f.sv = at[hst + ":" + std::to_string(port)]; if (!f.sv) throw php::Fatal{"connects to " + hst + ":" + std::to_string(port)}; f.s = &s; conn.push_back(f); return php::V::stream((int64_t)conn.size() - 1); };
  in.write = [&](int64_t i, const S &x) { conn[(size_t)i].in += x; conn[(size_t)i].process(); }; in.read = [&](int64_t i, size_t n) { Far &f = conn[(size_t)i]; size_t k = std::min(std::min(n, f.out.size()), f.chunk); S r = f.out.substr(0, k); f.out.erase(0, k); return r; };
  try { in.library = library(); in.run(code);
    for (auto &t : pool) { bool used = false; std::function<void(const T &)> look = [&](const T &x) { if (x == t) used = true; if (x->a) look(x->a); if (x->b) look(x->b); for (auto &y : x->m) look(y.second); }; for (auto &v : sv) for (auto &m : v.m) { look(m.ret); for (auto &a : m.args) look(a); } CHECK(!used || in.cls.count(php::lower(t->name)), "the client has no class " << t->name); }
    for (auto &v : sv) { int64_t port = (int64_t)s.range(1, 65535); S host = s.pick<S>({"localhost", "10.0.0.1"}); at.clear(); at[host + ":" + std::to_string(port)] = &v; CHECK(in.cls.count(php::lower(v.name) + "_client"), "there is no class " << v.name << "_client"); auto &k = in.klass(v.name + "_client"); size_t calls = 0; for (auto &m : k.m) if (m.first.compare(0, 5, "call_") == 0) calls++; CHECK(calls == v.m.size(), v.name << "_client has " << calls << " calls for " << v.m.size() << " methods");
      if (s.coin(1, 10)) { refuse = true; try { in.make(k, {php::V::str(host), php::V::n(port)}); FAIL("a client is made though nothing listens"); } catch (php::Thrown &) { c.label("refused"); } refuse = false; }
      php::V cl = in.make(k, {php::V::str(host), php::V::n(port)}); CHECK(conn.size() > 0 && conn.back().seen.empty() && conn.back().in.empty(), "a client that was only made sends something"); size_t at2 = conn.size() - 1, rounds = v.m.empty() ? 0 : 1 + s.choose(4);
      for (size_t q = 0; q < rounds; q++) { const Method &m = s.pick(v.m); std::vector<php::V> a; S want = m.name + " version " + std::to_string(v.version); for (auto &t : m.args) { Val x = gen_val(s, t); want += " " + canon(t, x); a.push_back(to_php(s, in, t, x)); } Far &f = conn[at2]; f.val = gen_val(s, m.ret); f.seen.clear(); { S whole; enc(whole, m.ret, f.val); f.chunk = std::max<size_t>(s.coin() ? 8192 : 1 + s.choose(s.coin() ? 5 : 2000), whole.size() / 100); } f.pong = true; f.code = "OK"; int how = (int)s.choose(10); if (how == 8) f.code = s.pick<S>({"NotFound " + m.name, "VersionMismatch 1 2", "ok", "OK ", "", "some error"}); if (how == 9) f.pong = false; S wr = canon(m.ret, f.val); NOTE("call " << want.substr(0, 300) << (how == 8 ? " answered " + f.code : how == 9 ? " no greeting" : " returns " + wr.substr(0, 300)) << ", pieces of " << f.chunk); php::V r; bool threw = false;
        try { r = in.call(cl, "call_" + m.name, a); } catch (php::Thrown &t) { threw = true; if (how < 8) FAIL("call_" << m.name << " throws " << php::to_s(in.call(t.v, "getMessage", {}))); if (how == 8 && !f.code.empty()) CHECK(php::to_s(in.call(t.v, "getMessage", {})).find(f.code) != S::npos, "the exception does not tell the code " << f.code); }
        std::vector<S> expect = {"ping"}; if (how != 9) expect.push_back(want); CHECK(f.in.empty(), "the client sent " << f.in.size() << " bytes that are no request"); S gs, es; for (auto &x : f.seen) gs += x + "; "; for (auto &x : expect) es += x + "; "; CHECK(f.seen == expect, "the server received " << show(gs.substr(0, 400)) << " instead of " << show(es.substr(0, 400))); if (how >= 8) { CHECK(threw, "call_" << m.name << " returns though the server " << (how == 8 ? "answered " + show(f.code) : S("did not greet"))); c.label("refused calls"); break; }
        S got = from_php(m.ret, r); CHECK(got == wr, "call_" << m.name << " returns " << got.substr(0, 300) << " instead of " << wr.substr(0, 300)); CHECK(f.out.empty(), "the client left " << f.out.size() << " bytes of the answer unread"); c.label("calls"); } } }
  catch (php::Fatal &f) { FAIL("the PHP client: " << f.msg); } catch (php::Thrown &t) { FAIL("the PHP client throws " << php::to_s(in.call(t.v, "getMessage", {}))); } catch (php::Unsupported &u) { unsupported(c, u.msg); }
}
// ---- a PHP client against a server of the library ----
struct Pair { int first_; std::string second_; bool operator==(const Pair &o) const { return first_ == o.first_ && second_ == o.second_; } template <class A> void serialize(A &ar) { ar & NAME(Pair) & NAMED_MEMBER("num", first_) & NAMED_MEMBER("str", second_); } };
typedef std::vector<Pair> Pairs; typedef std::map<std::string, double> Table; typedef std::map<int, std::vector<short> > Index;
}
namespace live { using namespace h; using pfi::network::rpc::reflect_base; REFLECT_RPC_PROC(turn, Pairs(Pairs, int)); REFLECT_RPC_PROC(sums, Table(Table, double)); REFLECT_RPC_PROC(index, Index(std::vector<short>, unsigned char)); REFLECT_RPC_PROC(hello, std::string(std::string)); REFLECT_RPC_GEN(12, live, turn, sums, index, hello) }
namespace h { RPC_PROC(turn, Pairs(Pairs, int)); RPC_PROC(sums, Table(Table, double)); RPC_PROC(index, Index(std::vector<short>, unsigned char)); RPC_PROC(hello, std::string(std::string)); RPC_GEN(12, live, turn, sums, index, hello); }
namespace h {
static Pairs f_turn(Pairs p, int n) { std::reverse(p.begin(), p.end()); for (auto &x : p) { x.first_ ^= n; x.second_ += std::to_string(n); } return p; }
static Table f_sums(Table t, double d) { for (auto &x : t) x.second += d; return t; }
static Index f_index(std::vector<short> v, unsigned char b) { Index r; for (size_t i = 0; i < v.size(); i++) r[(int)v[i] % (b + 1) - 3].push_back(v[i]); return r; }
static std::string f_hello(std::string x) { return "<" + x + ">"; }
static void against_live(Src &s, Ctx &c) { room = 100000;
  static live_server *sv = nullptr; static pid_t owner = 0; if (!sv || owner != getpid()) { sv = new live_server; owner = getpid(); sv->set_turn(f_turn); sv->set_sums(f_sums); sv->set_index(f_index); sv->set_hello(f_hello); if (!sv->start(0, 2)) throw Fail("harness: cannot start the server"); }
  live::live_reflect ref; std::vector<pfi::network::rpc::reflect_base *> refs = {&ref}; Scratch dir; Gone gone{dir.path("live.php")}; php_generator::generate(refs, "live"); S code = slurp(dir.path("live.php")); c.nt(); php::Interp in; in.file = [&](const S &f) -> S { throw php::Fatal{"includes " + f}; }; struct Fds { std::vector<int> v; ~Fds() { for (int f : v) ::close(f); } } fds; size_t chunk = 100 + s.choose(8092);
  in.open = [&](const S &, int64_t port) { int f = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (::connect(f, (sockaddr *)&a, sizeof a)) throw Fail("harness: connect"); linger lg = {1, 0}; setsockopt(f, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); timeval tv = {20, 0}; setsockopt(f, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); fds.v.push_back(f); return php::V::stream(f); }; in.write = [&](int64_t f, const S &x) { size_t p = 0; while (p < x.size()) { ssize_t r = ::send((int)f, x.data() + p, x.size() - p, MSG_NOSIGNAL); if (r <= 0) return; p += (size_t)r; } }; in.read = [&](int64_t f, size_t n) { S b(std::min(n, chunk), 0); ssize_t r = ::recv((int)f, &b[0], b.size(), 0); b.resize(r > 0 ? (size_t)r : 0); return b; };
  T ti = mk(Ty::Int), ts = mk(Ty::Str), td = mk(Ty::Dbl), th = mk(Ty::Int), tp = mk(Ty::Cls), tps = mk(Ty::Arr), tt = mk(Ty::Map), tx = mk(Ty::Map), tv = mk(Ty::Arr); th->size = 2; tp->name = "Pair"; tp->m = {{"num", ti}, {"str", ts}}; tps->a = tp; tt->a = ts; tt->b = td; tv->a = th; tx->a = ti; tx->b = tv;
  try { in.library = library(); in.run(code); php::V cl = in.make(in.klass("live_client"), {php::V::str("localhost"), php::V::n(sv->port())}); size_t n = 1 + s.choose(4);
    for (size_t q = 0; q < n; q++) switch (s.choose(4)) {
      case 0: { Val v = gen_val(s, tps); int k = (int)s.i64(); Pairs p; for (auto &x : v.e) p.push_back(Pair{(int)x.e[0].i, x.e[1].s}); Pairs w = f_turn(p, k); Val wv; for (auto &x : w) { Val y; y.e.resize(2); y.e[0].i = x.first_; y.e[1].s = x.second_; wv.e.push_back(y); } php::V r = in.call(cl, "call_turn", {to_php(s, in, tps, v), php::V::n(k)}); NOTE("turn of " << p.size()); S a = from_php(tps, r), b = canon(tps, wv); CHECK(a == b, "call_turn returns " << a.substr(0, 200) << " instead of " << b.substr(0, 200)); break; }
      case 1: { Val v = gen_val(s, tt); double k = (double)s.range(-1000, 1000); Table t; for (size_t i = 0; i < v.e.size(); i += 2) { v.e[i + 1].d = (double)s.range(-99, 99) / 4; t[v.e[i].s] = v.e[i + 1].d; } Table w = f_sums(t, k); Val wv; for (auto &x : w) { Val a, b; a.s = x.first; b.d = x.second; wv.e.push_back(a); wv.e.push_back(b); } php::V r = in.call(cl, "call_sums", {to_php(s, in, tt, v), php::V::f(k)}); NOTE("sums of " << t.size()); S a = from_php(tt, r), b = canon(tt, wv); CHECK(a == b, "call_sums returns " << a.substr(0, 200) << " instead of " << b.substr(0, 200)); break; }
      case 2: { Val v = gen_val(s, tv); int k = (int)s.choose(256); std::vector<short> x; for (auto &y : v.e) x.push_back((short)y.i); Index w = f_index(x, (unsigned char)k); Val wv; for (auto &y : w) { Val a, b; a.i = y.first; for (short z : y.second) { Val e; e.i = z; b.e.push_back(e); } wv.e.push_back(a); wv.e.push_back(b); } php::V r = in.call(cl, "call_index", {to_php(s, in, tv, v), php::V::n(k)}); NOTE("index of " << x.size()); S a = from_php(tx, r), b = canon(tx, wv); CHECK(a == b, "call_index returns " << a.substr(0, 200) << " instead of " << b.substr(0, 200)); break; }
      default: { S x = gen_val(s, ts).s; php::V r = in.call(cl, "call_hello", {php::V::str(x)}); NOTE("hello " << show(x.substr(0, 60))); CHECK(r.t == php::V::Str && r.s == "<" + x + ">", "call_hello(" << show(x.substr(0, 60)) << ") returns " << show(php::to_s(r).substr(0, 60))); } } }
  catch (php::Fatal &f) { FAIL("the PHP client: " << f.msg); } catch (php::Thrown &t) { FAIL("the PHP client throws " << php::to_s(in.call(t.v, "getMessage", {}))); } catch (php::Unsupported &u) { unsupported(c, u.msg); }
}
// ---- Haskell ----
struct Hs { std::vector<S> w; size_t p = 0; static std::vector<S> words(const S &s) { std::vector<S> r; size_t p = 0; while (p < s.size()) { char c = s[p]; if (isspace((unsigned char)c)) { p++; continue; } if (s.compare(p, 2, "--") == 0 && (p + 2 >= s.size() || !strchr("!#$%&*+./<=>?@\\^|~:", s[p + 2]))) { while (p < s.size() && s[p] != '\n') p++; continue; } if (c == '{' && p + 1 < s.size() && s[p + 1] == '-') { size_t e = s.find("-}", p); if (e == S::npos) throw Fail("comment without an end"); p = e + 2; continue; } size_t q = p; if (c == '"') { q++; while (q < s.size() && s[q] != '"') q += s[q] == '\\' ? 2 : 1; q++; } else if (isalnum((unsigned char)c) || c == '_') while (q < s.size() && (isalnum((unsigned char)s[q]) || s[q] == '_' || s[q] == '\'' || (s[q] == '.' && q + 1 < s.size() && isalpha((unsigned char)s[q + 1]) && isupper((unsigned char)c)))) q++; else if (strchr("()[]{},;", c)) q++; else while (q < s.size() && strchr("!#$%&*+./<=>?@\\^|~:-", s[q])) q++; if (q == p) throw Fail(S("unexpected character ") + c); r.push_back(s.substr(p, q - p)); p = q; } return r; }
  bool is(const S &x) const { return p < w.size() && w[p] == x; } bool eat(const S &x) { if (is(x)) { p++; return true; } return false; } void need(const S &x) { if (!eat(x)) { S a; for (size_t i = p > 4 ? p - 4 : 0; i < w.size() && i < p + 4; i++) a += (i == p ? " >>" : " ") + w[i]; throw Fail("expected " + x + " at" + a); } } S next() { if (p >= w.size()) throw Fail("the module ends early"); return w[p++]; } void seq(std::initializer_list<S> l) { for (auto &x : l) need(x); }
  S atom() { if (eat("(")) { S t = type(); need(")"); return t; } if (eat("[")) { S t = type(); need("]"); return "[" + t + "]"; } S n = next(); if (!isupper((unsigned char)n[0])) throw Fail("type " + n); return n == "Map.Map" ? "Map" : n; }
  S type() { S t = atom(); if (t == "Map") { S k = atom(); t = "Map<" + k + "," + atom() + ">"; } return t; }
  S value() { if (eat("(")) { S v = value(); need(")"); return v; } if (eat("-")) return "-" + next(); return next(); } };
static S cap(S x) { x[0] = (char)toupper(x[0]); return x; }
static S hst(const T &t) { switch (t->k) { case Ty::Int: return "Int"; case Ty::Dbl: return "Double"; case Ty::Str: return "String"; case Ty::Char: return "Char"; case Ty::Arr: { S e = hst(t->a); return "[" + e + "]"; } case Ty::Map: return "Map<" + hst(t->a) + "," + hst(t->b) + ">"; case Ty::Cls: return cap(t->name); } return ""; }
static void haskell(Src &s, Ctx &c) {
  std::vector<T> pool = gen_classes(s, true); std::set<S> names; std::vector<Service> sv = {gen_service(s, pool, names, true)}; NOTE(describe(sv, pool)); Refl r(sv[0]); std::vector<pfi::network::rpc::reflect_base *> refs = {&r}; Scratch dir; S base = s.pick<S>({"svc", "out", "Sig"}); Gone gone{dir.path(cap(base) + ".hs")}; haskell_generator::generate(refs, base); Hs w{Hs::words(slurp(dir.path(cap(base) + ".hs")))}; Service &v = sv[0]; c.nt(!v.m.empty());
  std::map<S, T> used; std::function<void(const T &)> look = [&](const T &x) { if (x->k == Ty::Cls) used[cap(x->name)] = x; if (x->a) look(x->a); if (x->b) look(x->b); for (auto &y : x->m) look(y.second); }; for (auto &m : v.m) { look(m.ret); for (auto &a : m.args) look(a); } c.label("classes", used.size());
  try { w.seq({"module", cap(base), "("}); std::multiset<S> ex, want; while (!w.is(")")) { S n = w.next(); if (n == "module") n += " " + w.next(); if (w.eat("(")) { w.seq({"..", ")"}); n += "(..)"; } ex.insert(n); if (!w.eat(",")) break; } w.seq({")", "where"}); want.insert("module PFIRPC"); for (auto &x : used) want.insert(x.first + "(..)"); for (auto &m : v.m) want.insert("call_" + m.name); if (ex != want) { S a, b; for (auto &x : ex) a += x + " "; for (auto &x : want) b += x + " "; FAIL("the module exports " << a << "instead of " << b); }
    bool lib = false; while (w.eat("import")) { w.eat("qualified"); S n = w.next(); lib |= n == "PFIRPC"; if (w.eat("as")) w.next(); if (w.eat("(")) while (!w.eat(")")) w.next(); } CHECK(lib, "the module does not import PFIRPC"); std::set<S> data, inst, sigs, defs;
    while (w.p < w.w.size()) { S n = w.next();
      if (n == "data") { S cn = w.next(); CHECK(used.count(cn) && data.insert(cn).second, "data " << cn << " is declared twice or belongs to no type"); T t = used[cn]; S pre = cn; pre[0] = (char)tolower(pre[0]); w.seq({"=", cn}); for (size_t i = 0; i < t->m.size(); i++) { w.seq({i ? "," : "{", pre + "_" + t->m[i].first, "::"}); S ty = w.type(); CHECK(ty == hst(t->m[i].second), "member " << t->m[i].first << " of " << cn << " has type " << ty << " instead of " << hst(t->m[i].second)); } w.need("}"); if (w.eat("deriving")) { w.need("("); while (!w.eat(")")) w.next(); } continue; }
      if (n == "instance") { w.need("RPCType"); S cn = w.next(); CHECK(used.count(cn) && inst.insert(cn).second, "instance " << cn << " is declared twice or belongs to no type"); T t = used[cn]; S pre = cn; pre[0] = (char)tolower(pre[0]); w.seq({"where", "sendValue", "c", "v", "=", "do"}); for (auto &x : t->m) w.seq({"sendValue", "c", "(", pre + "_" + x.first, "v", ")"}); w.seq({"recvValue", "c", "=", "do"}); std::vector<S> b; for (size_t i = 0; i < t->m.size(); i++) { b.push_back(w.next()); w.seq({"<-", "recvValue", "c"}); } CHECK(std::set<S>(b.begin(), b.end()).size() == b.size(), "one name for two members of " << cn); w.seq({"return", "$", cn}); for (auto &x : b) w.need(x); continue; }
      const Method *m = nullptr; for (auto &x : v.m) if (n == "call_" + x.name) m = &x; CHECK(m, "a declaration of " << n);
      if (w.eat("::")) { CHECK(sigs.insert(n).second, "two signatures of " << n); w.seq({"RPCClient", "c", "=>", "c"}); for (auto &a : m->args) { w.need("->"); S ty = w.type(); CHECK(ty == hst(a), n << " takes " << ty << " instead of " << hst(a)); } w.seq({"->", "IO"}); S ty = w.type(); CHECK(ty == hst(m->ret), n << " returns " << ty << " instead of " << hst(m->ret)); continue; }
      CHECK(defs.insert(n).second, "two definitions of " << n); S cn = w.next(); std::vector<S> a; while (!w.eat("=")) a.push_back(w.next()); CHECK(a.size() == m->args.size() && std::set<S>(a.begin(), a.end()).size() == a.size(), n << " is defined with " << a.size() << " arguments"); w.seq({"call", cn, "\"" + m->name + "\""}); S ver = w.value(); CHECK(ver == std::to_string(v.version), n << " calls version " << ver << " of a service of version " << v.version); w.need("["); for (size_t i = 0; i < a.size(); i++) { if (i) w.need(","); w.seq({"RPCValue", a[i]}); } w.need("]"); }
    CHECK(data.size() == used.size() && inst.size() == used.size(), "of " << used.size() << " classes " << data.size() << " are declared, " << inst.size() << " have an instance"); CHECK(sigs.size() == v.m.size() && defs.size() == v.m.size(), "of " << v.m.size() << " methods " << sigs.size() << " have a signature, " << defs.size() << " a definition"); }
  catch (Fail &f) { throw Fail("the Haskell client: " + f.msg); }
}
}
pbt::Suite pbt::suite() {
  Suite u; u.property = "C54";
  u.rule = "Interfaces of one to three services (any version) with up to four methods of up to eleven arguments over integers of 1, 2 and 4 bytes, floating-point numbers, strings, nested arrays and maps, named and unnamed classes. The PHP client written for them is run, with its library, by an interpreter in the harness against a server of the harness that reads requests by the interface's own types (answers in pieces, other result codes, no greeting, no listener), and against a server of the library; Haskell modules are read back declaration by declaration. Non-trivial: the interface has a method.";
  u.props = {{"php", h::php_client, 6000, 100000, true}, {"live", h::against_live, 1000, 10000, false, true}, {"haskell", h::haskell, 8000, 100000, true}};
  u.assumptions = {"the semantics of PHP is that of the harness's interpreter; neither PHP nor Haskell is installed", "types the client libraries know: no bool, char (PHP), integers of 8 bytes, or float; Haskell: integers of 4 bytes, classes with at least one member, one service", "names differ without regard to case"};
  return u;
}
