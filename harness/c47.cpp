#include "pbt.h"
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <time.h>
#include <mysql.h>
#include <errmsg.h>
#include <database/mysql/connection.h>
using namespace pbt; using namespace pfi::database; using pfi::lang::shared_ptr; using pfi::system::time::clock_time;
typedef std::vector<shared_ptr<sql_value>> Vals;
// ---- values: k: 0 null 1 bool 2 string 3 int32 4 int64 5 float 6 timestamp 7 of a type the driver does not know ----
struct V { int k = 0; bool b = false; std::string s; int64_t n = 0; double d = 0; int64_t sec = 0; int usec = 0; };
struct Answer { bool tuples = false, refuse = false; std::vector<enum_field_types> types; std::vector<std::vector<V>> rows; };
// ---- a stand-in for the client library and the server behind it, after the documentation of the C API ----
struct Stm; struct Con { bool up = false; unsigned err = 0; std::string msg; std::set<Stm *> stms; Stm *pending = nullptr; };
struct Res { std::vector<MYSQL_FIELD> f; };
struct Stm { Con *c; std::string q; bool prepared = false; size_t nparam = 0; std::vector<MYSQL_BIND> in, out; unsigned err = 0; std::string msg; int state = 0; Answer a; size_t at = 0; };   // state: 0 not executed, 1 a result to read, 2 read to the end, 3 executed without a result
struct Exec { std::string query; std::vector<V> params; };
struct Query { size_t nparam = 0; bool refuse_prepare = false; Answer a; };
static struct Server { bool reachable = true; std::set<Con *> cons; std::set<Stm *> stms; std::set<Res *> res; std::map<std::string, Query> q; std::set<std::string> refused; std::vector<Exec> log; std::string bad, host, user, pw, db; unsigned port = 0; } S;
static Con *con(MYSQL *m) { auto c = reinterpret_cast<Con *>(m); if (!S.cons.count(c)) throw Fail("a call on a connection that is not open"); return c; }
static Stm *stm(MYSQL_STMT *m) { auto s = reinterpret_cast<Stm *>(m); if (!S.stms.count(s)) throw Fail("a call on a statement that is not open"); return s; }
static int oops(Con *c, unsigned e, const std::string &m) { c->err = e; c->msg = m; return 1; }
static int oops(Stm *s, unsigned e, const std::string &m) { s->err = e; s->msg = m; return 1; }
static void finish(Stm *s) { if (s->c && s->c->pending == s) s->c->pending = nullptr; }
static V local(int64_t sec, int usec) { V v; v.k = 6; v.sec = sec; v.usec = usec; return v; }
static void broken(const V &v, MYSQL_TIME &t) { time_t x = v.sec; tm m; localtime_r(&x, &m); memset(&t, 0, sizeof t); t.year = m.tm_year + 1900; t.month = m.tm_mon + 1; t.day = m.tm_mday; t.hour = m.tm_hour; t.minute = m.tm_min; t.second = m.tm_sec; t.second_part = v.usec; t.time_type = MYSQL_TIMESTAMP_DATETIME; }
static V taken(const MYSQL_BIND &b) {   // the value a bound parameter stands for
  V v; if (b.buffer_type == MYSQL_TYPE_NULL || (b.is_null && *b.is_null)) return v; unsigned long n = b.length ? *b.length : b.buffer_length;
  switch (b.buffer_type) {
    case MYSQL_TYPE_TINY: v.k = 3; v.n = b.is_unsigned ? *(unsigned char *)b.buffer : *(signed char *)b.buffer; break; case MYSQL_TYPE_SHORT: v.k = 3; v.n = *(short *)b.buffer; break; case MYSQL_TYPE_LONG: v.k = 3; v.n = b.is_unsigned ? (int64_t)*(unsigned *)b.buffer : *(int *)b.buffer; break; case MYSQL_TYPE_LONGLONG: v.k = 4; v.n = *(long long *)b.buffer; break; case MYSQL_TYPE_FLOAT: v.k = 5; v.d = *(float *)b.buffer; break; case MYSQL_TYPE_DOUBLE: v.k = 5; v.d = *(double *)b.buffer; break;
    case MYSQL_TYPE_DATE: case MYSQL_TYPE_DATETIME: case MYSQL_TYPE_TIMESTAMP: { auto t = (MYSQL_TIME *)b.buffer; tm m{}; m.tm_year = t->year - 1900; m.tm_mon = t->month - 1; m.tm_mday = t->day; m.tm_hour = t->hour; m.tm_min = t->minute; m.tm_sec = t->second; m.tm_isdst = -1; v = local(mktime(&m), (int)t->second_part); MYSQL_TIME u; broken(v, u); if (t->neg || u.year != t->year || u.month != t->month || u.day != t->day || u.hour != t->hour || u.minute != t->minute || u.second != t->second) v.sec = -1; break; }
    default: v.k = 2; v.s.assign((char *)b.buffer, n); } return v;
}
static bool stringy(enum_field_types t) { return t == MYSQL_TYPE_STRING || t == MYSQL_TYPE_VAR_STRING || t == MYSQL_TYPE_BLOB || t == MYSQL_TYPE_NEWDECIMAL || t == MYSQL_TYPE_VARCHAR; }
static bool deliver(const V &v, enum_field_types t, MYSQL_BIND &b, unsigned long off) {   // one column into one bind; true if it was cut
  if (b.error) *b.error = 0; if (v.k == 0) { if (b.is_null) *b.is_null = 1; return false; } if (b.is_null) *b.is_null = 0; unsigned long n = 0; bool cut = false; auto len = [&](unsigned long k) { n = k; if (b.length) *b.length = k; };
  if (stringy(t)) { if (!stringy(b.buffer_type)) { S.bad = "a text column bound as type " + std::to_string(b.buffer_type); return false; } len(v.s.size()); size_t m = off < n ? n - off : 0; if (m > b.buffer_length) { m = b.buffer_length; cut = true; } if (m) memcpy(b.buffer, v.s.data() + off, m); if (m < b.buffer_length) ((char *)b.buffer)[m] = 0; }
  else if (t != b.buffer_type) S.bad = "a column of type " + std::to_string(t) + " bound as type " + std::to_string(b.buffer_type);
  else switch (t) { case MYSQL_TYPE_TINY: *(signed char *)b.buffer = (signed char)v.n; len(1); break; case MYSQL_TYPE_SHORT: *(short *)b.buffer = (short)v.n; len(2); break; case MYSQL_TYPE_LONG: *(int *)b.buffer = (int)v.n; len(4); break; case MYSQL_TYPE_LONGLONG: *(long long *)b.buffer = v.n; len(8); break; case MYSQL_TYPE_FLOAT: *(float *)b.buffer = (float)v.d; len(4); break; case MYSQL_TYPE_DOUBLE: *(double *)b.buffer = v.d; len(8); break; default: { MYSQL_TIME m; broken(v, m); memcpy(b.buffer, &m, sizeof m); len(sizeof m); } }
  if (cut && b.error) *b.error = 1; return cut;
}
extern "C" {
MYSQL *mysql_init(MYSQL *) { auto c = new Con; S.cons.insert(c); return reinterpret_cast<MYSQL *>(c); }
MYSQL *mysql_real_connect(MYSQL *m, const char *h, const char *u, const char *p, const char *d, unsigned port, const char *, unsigned long) { Con *c = con(m); S.host = h; S.user = u; S.pw = p; S.db = d; S.port = port; if (!S.reachable) { oops(c, CR_CONN_HOST_ERROR, "nobody answers"); return nullptr; } c->up = true; return m; }
void mysql_close(MYSQL *m) { if (!m) return; Con *c = con(m); for (auto s : c->stms) s->c = nullptr; S.cons.erase(c); delete c; }
int mysql_ping(MYSQL *m) { Con *c = con(m); return c->up ? 0 : oops(c, CR_SERVER_GONE_ERROR, "gone"); }
unsigned mysql_errno(MYSQL *m) { return con(m)->err; }
const char *mysql_error(MYSQL *m) { return con(m)->msg.c_str(); }
int mysql_real_query(MYSQL *m, const char *q, unsigned long n) { Con *c = con(m); c->err = 0; c->msg = ""; if (c->pending) return oops(c, CR_COMMANDS_OUT_OF_SYNC, "out of sync"); if (!c->up) return oops(c, CR_SERVER_GONE_ERROR, "gone"); std::string s(q, n); S.log.push_back({s, {}}); if (S.refused.count(s)) return oops(c, 1213, "it is refused"); return 0; }
int mysql_query(MYSQL *m, const char *q) { return mysql_real_query(m, q, strlen(q)); }
my_bool mysql_commit(MYSQL *m) { return mysql_query(m, "COMMIT"); }
my_bool mysql_rollback(MYSQL *m) { return mysql_query(m, "ROLLBACK"); }
MYSQL_STMT *mysql_stmt_init(MYSQL *m) { Con *c = con(m); auto s = new Stm; s->c = c; c->stms.insert(s); S.stms.insert(s); return reinterpret_cast<MYSQL_STMT *>(s); }
int mysql_stmt_prepare(MYSQL_STMT *m, const char *q, unsigned long n) { Stm *s = stm(m); s->err = 0; s->msg = ""; if (!s->c) return oops(s, CR_SERVER_LOST, "lost"); if (s->c->pending && s->c->pending != s) return oops(s, CR_COMMANDS_OUT_OF_SYNC, "out of sync"); if (!s->c->up) return oops(s, CR_SERVER_GONE_ERROR, "gone"); s->q.assign(q, n == (unsigned long)-1 ? strlen(q) : n); auto it = S.q.find(s->q); if (it == S.q.end()) { S.bad = "the server is given the query " + show(s->q); return oops(s, 1064, "syntax error"); } if (it->second.refuse_prepare) return oops(s, 1064, "syntax error"); s->prepared = true; s->nparam = it->second.nparam; s->a = it->second.a; return 0; }
my_bool mysql_stmt_close(MYSQL_STMT *m) { Stm *s = stm(m); finish(s); if (s->c) s->c->stms.erase(s); S.stms.erase(s); delete s; return 0; }
unsigned mysql_stmt_errno(MYSQL_STMT *m) { return stm(m)->err; }
const char *mysql_stmt_error(MYSQL_STMT *m) { return stm(m)->msg.c_str(); }
unsigned long mysql_stmt_param_count(MYSQL_STMT *m) { return stm(m)->nparam; }
unsigned mysql_stmt_field_count(MYSQL_STMT *m) { return stm(m)->a.tuples ? (unsigned)stm(m)->a.types.size() : 0; }
MYSQL_RES *mysql_stmt_result_metadata(MYSQL_STMT *m) { Stm *s = stm(m); if (!s->a.tuples) return nullptr; auto r = new Res; for (auto t : s->a.types) { MYSQL_FIELD f; memset(&f, 0, sizeof f); f.type = t; f.name = (char *)"c"; f.name_length = 1; f.length = 255; r->f.push_back(f); } S.res.insert(r); return reinterpret_cast<MYSQL_RES *>(r); }
MYSQL_FIELD *mysql_fetch_fields(MYSQL_RES *r) { return reinterpret_cast<Res *>(r)->f.data(); }
unsigned mysql_num_fields(MYSQL_RES *r) { return (unsigned)reinterpret_cast<Res *>(r)->f.size(); }
void mysql_free_result(MYSQL_RES *m) { if (!m) return; auto r = reinterpret_cast<Res *>(m); if (!S.res.erase(r)) { S.bad = "a result description is freed twice"; return; } delete r; }
my_bool mysql_stmt_bind_param(MYSQL_STMT *m, MYSQL_BIND *b) { Stm *s = stm(m); if (!s->prepared) return oops(s, CR_NO_PREPARE_STMT, "not prepared"); s->in.assign(b, b + s->nparam); return 0; }
int mysql_stmt_execute(MYSQL_STMT *m) {
  Stm *s = stm(m); s->err = 0; s->msg = ""; if (!s->c) return oops(s, CR_SERVER_LOST, "lost"); if (!s->prepared) return oops(s, CR_NO_PREPARE_STMT, "not prepared"); if (s->nparam && s->in.size() != s->nparam) return oops(s, CR_PARAMS_NOT_BOUND, "parameters not bound"); if (s->c->pending && s->c->pending != s) return oops(s, CR_COMMANDS_OUT_OF_SYNC, "out of sync"); finish(s); if (!s->c->up) return oops(s, CR_SERVER_GONE_ERROR, "gone");
  Exec e; e.query = s->q; for (auto &b : s->in) e.params.push_back(taken(b)); S.log.push_back(e); auto types = s->a.types; s->a = S.q[s->q].a; s->at = 0; s->state = 0; if (s->a.refuse) return oops(s, 1062, "it is refused"); s->state = s->a.tuples ? 1 : 3; if (s->a.tuples) s->c->pending = s; return 0;
}
my_bool mysql_stmt_bind_result(MYSQL_STMT *m, MYSQL_BIND *b) { Stm *s = stm(m); if (!s->a.tuples || s->a.types.empty()) return oops(s, CR_NO_STMT_METADATA, "no result"); s->out.assign(b, b + s->a.types.size()); return 0; }
int mysql_stmt_fetch(MYSQL_STMT *m) {
  Stm *s = stm(m); if (s->state == 2) return MYSQL_NO_DATA; if (s->state != 1) return oops(s, CR_COMMANDS_OUT_OF_SYNC, "out of sync"); if (!s->c || !s->c->up) { s->state = 0; finish(s); return oops(s, CR_SERVER_LOST, "lost"); }
  if (s->at >= s->a.rows.size()) { s->state = 2; finish(s); return MYSQL_NO_DATA; } bool cut = false; for (size_t i = 0; i < s->out.size(); i++) if (deliver(s->a.rows[s->at][i], s->a.types[i], s->out[i], 0)) cut = true; s->at++; return cut ? MYSQL_DATA_TRUNCATED : 0;
}
int mysql_stmt_fetch_column(MYSQL_STMT *m, MYSQL_BIND *b, unsigned col, unsigned long off) { Stm *s = stm(m); if (s->state != 1 || s->at == 0) return oops(s, CR_NO_DATA, "no row"); if (col >= s->a.types.size()) return oops(s, CR_INVALID_PARAMETER_NO, "no such column"); deliver(s->a.rows[s->at - 1][col], s->a.types[col], *b, off); return 0; }
int mysql_stmt_store_result(MYSQL_STMT *m) { Stm *s = stm(m); finish(s); return 0; }
my_bool mysql_stmt_free_result(MYSQL_STMT *m) { Stm *s = stm(m); finish(s); if (s->state == 1) s->state = 0; return 0; }
}
static std::string text(const V &v) { std::ostringstream o; switch (v.k) { case 0: o << "null"; break; case 1: o << (v.b ? "true" : "false"); break; case 2: case 7: o << show(v.s, 60) << " (" << v.s.size() << " bytes)"; break; case 3: case 4: o << v.n; break; case 5: o << v.d; break; default: o << v.sec << "s+" << v.usec; } return o.str(); }
static std::string bytes(Src &s) { return s.coin(1, 10) ? s.blob(s.coin() ? s.edge_len(70000) : s.pick<size_t>({16383, 16384, 16385, 16386, 40000})) : s.bytes(20); }
static int64_t clear(int64_t x) {   // an instant whose local time no other instant shares
  auto f = [](time_t t) { tm m; localtime_r(&t, &m); return m.tm_hour * 60 + m.tm_min; }; while (f(x) == f(x + 3600) || f(x) == f(x - 3600)) x += 3600; return x; }
static V value(Src &s, int k) { V v; v.k = k; switch (k) { case 1: v.b = s.coin(); break; case 2: case 7: v.s = bytes(s); break; case 3: v.n = (int32_t)s.i64(); break; case 4: v.n = s.i64(); break; case 5: v.d = s.coin(1, 10) ? s.pick<double>({INFINITY, -INFINITY, 0.0, -0.0}) : s.finite(); break; case 6: v.sec = s.coin(1, 4) ? s.range(1, 100000) * 86400 - s.choose(2) : s.coin(1, 3) ? s.range(0, 8000000000ll) : s.range(0, 8000000000ll / 86400) * 86400 + s.choose(200); v.sec = clear(v.sec); v.usec = (int)(s.coin(1, 3) ? 0 : s.choose(1000000)); } return v; }
static shared_ptr<sql_value> sql(const V &v) { typedef shared_ptr<sql_value> P; switch (v.k) { case 0: return P(); case 1: return P(new sql_bool(v.b)); case 2: return P(new sql_string(v.s)); case 3: return P(new sql_int32((int32_t)v.n)); case 4: return P(new sql_int64(v.n)); case 5: return P(new sql_float(v.d)); case 6: return P(new sql_timestamp(clock_time(v.sec, v.usec))); default: return P(new sql_unknown(v.s)); } }
static bool feq(double a, double b) { return a == b && std::signbit(a) == std::signbit(b); }
static bool holds(const shared_ptr<sql_value> &p, const V &v) {
  if (v.k == 0) return !p; if (!p) return false;
  switch (v.k) { case 2: { auto q = dynamic_cast<sql_string *>(p.get()); return q && q->get() == v.s; } case 3: { auto q = dynamic_cast<sql_int32 *>(p.get()); return q && q->get() == v.n; } case 4: { auto q = dynamic_cast<sql_int64 *>(p.get()); return q && q->get() == v.n; } case 5: { auto q = dynamic_cast<sql_float *>(p.get()); return q && feq(q->get(), v.d); } case 6: { auto q = dynamic_cast<sql_timestamp *>(p.get()); return q && q->get().sec == v.sec && q->get().usec == v.usec; } } return false;
}
static bool reads(const V &g, const V &v) { switch (v.k) { case 0: return g.k == 0; case 1: return (g.k == 3 || g.k == 4) && g.n == v.b; case 2: return g.k == 2 && g.s == v.s; case 3: case 4: return (g.k == 3 || g.k == 4) && g.n == v.n; case 5: return g.k == 5 && feq(g.d, v.d); case 6: return g.k == 6 && g.sec == v.sec && g.usec == v.usec; } return false; }
struct St { std::unique_ptr<statement> p; std::string q; std::vector<int> kinds; bool valid = true; int res = 0; std::vector<std::vector<V>> rows; size_t at = 0; bool strange = false; };   // res: 0 nothing to fetch, 1 rows, 2 without a result set or failed
static const std::vector<std::pair<enum_field_types, int>> &types() { static const std::vector<std::pair<enum_field_types, int>> t = {{MYSQL_TYPE_TINY, 3}, {MYSQL_TYPE_SHORT, 3}, {MYSQL_TYPE_LONG, 3}, {MYSQL_TYPE_LONGLONG, 4}, {MYSQL_TYPE_FLOAT, 5}, {MYSQL_TYPE_DOUBLE, 5}, {MYSQL_TYPE_DATE, 6}, {MYSQL_TYPE_DATETIME, 6}, {MYSQL_TYPE_TIMESTAMP, 6}, {MYSQL_TYPE_STRING, 2}, {MYSQL_TYPE_VAR_STRING, 2}, {MYSQL_TYPE_BLOB, 2}}; return t; }
static void rows(Src &s, Answer &a) {
  a.rows.clear(); if (!a.tuples) return; size_t m = s.size(s.coin(1, 30) ? 200 : 6); for (size_t y = 0; y < m; y++) { std::vector<V> r; for (auto t : a.types) { int k = 7; for (auto &o : types()) if (o.first == t) k = o.second; if (s.coin(1, 8)) { r.push_back(V()); continue; } V v = value(s, k); if (t == MYSQL_TYPE_TINY) v.n = (signed char)v.n; if (t == MYSQL_TYPE_SHORT) v.n = (short)v.n; if (t == MYSQL_TYPE_FLOAT) v.d = (float)v.d; if (t == MYSQL_TYPE_DATE) { tm x; time_t u = v.sec; localtime_r(&u, &x); x.tm_hour = x.tm_min = x.tm_sec = 0; x.tm_isdst = -1; v.sec = mktime(&x); v.usec = 0; } r.push_back(v); } a.rows.push_back(r); }
}
template <class F> static bool throws(F f, std::string *msg = nullptr) { try { f(); return false; } catch (const database_error &e) { if (msg) *msg = e.what(); return true; } }
static void history(Src &s, Ctx &c) {
  static const char *tz[] = {"UTC0", "JST-9", "EST5", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"}; setenv("TZ", tz[s.choose(6)], 1); tzset(); for (auto p : S.cons) delete p; for (auto p : S.stms) delete p; for (auto p : S.res) delete p; S = Server(); int serial = 0;
  { std::string host = s.utf8(6, false), db = s.utf8(6, false), user = s.over("ab '", 4), pw = s.utf8(8, false); unsigned port = (unsigned)s.choose(65536); if (s.coin(1, 20)) { S.reachable = false; bool th = throws([&] { pfi::database::mysql::connect(host, port, db, user, pw); }); CHECK(th, "connecting to a server that does not answer succeeds"); CHECK(S.cons.empty(), "a failed connection is not released"); S.reachable = true; }
    std::unique_ptr<connection> cn(pfi::database::mysql::connect(host, port, db, user, pw)); auto right = [&] { CHECK(S.host == host && S.port == port && S.db == db && S.user == user && S.pw == pw, "connected to " << show(S.host) << " " << S.port << " " << show(S.db) << " " << show(S.user) << " " << show(S.pw)); }; right();
    std::vector<std::unique_ptr<St>> st; size_t ops = 1 + s.size(s.coin(1, 20) ? 60 : 16); c.nt(ops > 3);
    auto live = [&] { return S.cons.empty() ? nullptr : *S.cons.begin(); }; auto is_up = [&] { return live() && live()->up; }; auto busy = [&] { return live() && live()->pending; };
    auto args = [&](const std::vector<int> &kinds, std::vector<V> &vs) { Vals a; for (int k : kinds) { vs.push_back(value(s, k)); a.push_back(sql(vs.back())); } return a; };
    auto kinds = [&](size_t n) { std::vector<int> k; for (size_t i = 0; i < n; i++) k.push_back((int)s.choose(7)); return k; };
    auto reached = [&](const std::string &q, const std::vector<V> &vs, size_t before) { CHECK(S.log.size() == before + 1, "the server saw " << S.log.size() - before << " executions instead of one"); const Exec &e = S.log.back(); CHECK(e.query == q, "the server ran " << show(e.query) << ", not " << show(q)); CHECK(e.params.size() == vs.size(), "the server got " << e.params.size() << " parameters, not " << vs.size()); for (size_t i = 0; i < vs.size(); i++) CHECK(reads(e.params[i], vs[i]), "parameter " << i + 1 << " is " << text(vs[i]) << " (kind " << vs[i].k << ") and arrives as " << text(e.params[i])); };
    auto fresh = [&](size_t &n, Query &d) { n = s.size(s.coin(1, 15) ? 50 : 6); std::string q = "SELECT " + std::to_string(serial++) + " " + (s.coin() ? s.bytes(10) : s.over("?'\"a ", 12)); d = Query(); d.nparam = n; d.a.tuples = s.coin(3, 4); if (d.a.tuples) { size_t m = 1 + s.size(s.coin(1, 20) ? 30 : 5); for (size_t i = 0; i < m; i++) d.a.types.push_back(s.pick(types()).first); if (s.coin(1, 25)) d.a.types[s.choose(m)] = MYSQL_TYPE_NEWDECIMAL; } return q; };
    for (size_t k = 0; k < ops; k++) {
      bool was_up = is_up(), down = !was_up && !S.reachable; if (!was_up) for (auto &x : st) x->valid = false; bool bz = busy(); St *x = st.empty() ? nullptr : s.pick(st).get(); std::string m;
      switch (s.choose(12)) {
        case 0: case 1: { auto y = std::make_unique<St>(); size_t n; Query d; y->q = fresh(n, d); d.refuse_prepare = s.coin(1, 12); S.q[y->q] = d; y->kinds = kinds(n); for (auto t : d.a.types) if (t == MYSQL_TYPE_NEWDECIMAL) y->strange = true; NOTE("prepare " << show(y->q) << (d.refuse_prepare ? " (to be refused)" : "")); bool th = throws([&] { y->p.reset(cn->prepare(y->q)); }, &m);
          if (bz && th) { c.label("out of sync"); break; } CHECK(th == (d.refuse_prepare || down), "preparing " << (th ? "fails: " + m : "succeeds")); if (d.refuse_prepare && !down) CHECK(m.find("syntax error") != std::string::npos, "the error of the server is reported as " << show(m)); if (!was_up && !down) { right(); c.label("reconnected"); for (auto &z : st) z->valid = false; } if (!th) st.push_back(std::move(y)); if (st.size() > 1) c.label("several statements"); break; }
        case 2: case 3: case 4: if (x) { std::vector<V> vs; Vals a = args(x->kinds, vs); int wrong = s.coin(1, 12) ? 1 + (int)s.choose(2) : 0; if (wrong == 1 && a.empty()) wrong = 2; if (wrong == 1) a.pop_back(); if (wrong == 2) a.push_back(sql(value(s, 3))); bool unk = !wrong && !a.empty() && s.coin(1, 20); if (unk) a[s.choose(a.size())] = shared_ptr<sql_value>(new sql_unknown("x"));
            Answer &an = S.q[x->q].a; rows(s, an); an.refuse = s.coin(1, 12); size_t before = S.log.size(); bool other = bz && reinterpret_cast<Stm *>(live()->pending)->q != x->q; NOTE("execute " << show(x->q) << " with " << a.size() << " parameters" << (an.refuse ? ", to be refused" : "")); bool th = throws([&] { x->p->execute(a); }, &m);
            if (wrong || unk) { CHECK(th, (wrong ? "a wrong number of parameters" : "a value without a type") << " is accepted"); CHECK(S.log.size() == before, "the server was asked all the same"); c.label("unusable parameters"); break; }
            if (!x->valid || !was_up) { if (!was_up) CHECK(th, "a statement was executed though the connection is lost"); if (th) { x->res = 2; break; } } if (other && th) { c.label("out of sync"); x->res = 2; break; }
            if (an.refuse) { CHECK(th, "a failed execution is not reported"); CHECK(m.find("it is refused") != std::string::npos, "the error of the server is reported as " << show(m)); reached(x->q, vs, before); x->res = 2; c.label("failed execution"); break; } CHECK(!th, "executing fails: " << m); reached(x->q, vs, before); x->rows = an.rows; x->at = 0; x->res = an.tuples ? 1 : 2; c.label("executed"); } break;
        case 5: case 6: case 7: if (x && x->valid && was_up) { size_t n = s.coin() ? 1 : 1 + s.choose(8); NOTE("fetch " << n << " rows of " << show(x->q)); for (size_t i = 0; i < n; i++) { Vals row; if (s.coin(1, 4)) row.resize(3, shared_ptr<sql_value>(new sql_int32(7))); bool r = false, th = throws([&] { r = x->p->fetch_row(row); }, &m); if (x->res != 1) { CHECK(th || !r, "a row was fetched from a statement without a result"); break; } if (x->at >= x->rows.size()) { CHECK(!th && !r, "a row was fetched after the last one, or fetching fails: " << m); continue; } auto &w = x->rows[x->at]; bool strange = false; for (auto &v : w) if (v.k == 7) strange = true; if (strange) { CHECK(th, "a column of an unknown type was fetched"); x->at++; c.label("unknown type"); continue; } CHECK(!th, "fetching fails: " << m); CHECK(r, "no row " << x->at << " of " << x->rows.size()); CHECK(row.size() == w.size(), "a row of " << row.size() << " columns instead of " << w.size()); for (size_t j = 0; j < w.size(); j++) { CHECK(holds(row[j], w[j]), "row " << x->at << " column " << j << " is not " << text(w[j]) << " (kind " << w[j].k << ")"); if (w[j].k == 2 && w[j].s.size() > 16384) c.label("long column"); } x->at++; c.label("fetched"); } } break;
        case 8: { size_t n; Query d; std::string q = fresh(n, d); rows(s, d.a); d.a.refuse = s.coin(1, 6); S.q[q] = d; std::vector<V> vs; Vals a = args(kinds(n), vs); size_t before = S.log.size(); NOTE("run " << show(q)); bool th = throws([&] { cn->run(q, a); }); if (bz && th) break; CHECK(th == (d.a.refuse || down), "running " << show(q) << (th ? " fails" : " succeeds")); if (!down) reached(q, vs, before); if (!was_up && !down) { right(); for (auto &z : st) z->valid = false; } break; }
        case 9: { const char *w[] = {"BEGIN", "COMMIT", "ROLLBACK"}; int i = (int)s.choose(3); bool refuse = s.coin(1, 5); if (refuse) S.refused.insert(w[i]); NOTE(w[i] << (refuse ? " (to be refused)" : "")); size_t before = S.log.size(); bool th = throws([&] { if (i == 0) cn->begin_transaction(); else if (i == 1) cn->commit(); else cn->rollback(); }); S.refused.erase(w[i]); if (bz && th) break; if (i == 1 && !was_up) CHECK(th, "commit succeeds though the connection with the transaction was lost"); else { CHECK(th == (refuse || down), w[i] << (th ? " fails" : " succeeds though the server did not accept it")); if (!down) reached(w[i], {}, before); } if (!was_up && is_up()) for (auto &z : st) z->valid = false; c.label("transaction"); break; }
        case 10: if (s.coin(1, 3)) { NOTE("the connection is lost"); if (live()) { live()->up = false; live()->pending = nullptr; } S.reachable = s.coin(); c.label("connection lost"); } else { NOTE("the server is back"); S.reachable = true; } break;
        default: if (x) { NOTE("destroy " << show(x->q)); for (size_t i = 0; i < st.size(); i++) if (st[i].get() == x) { st.erase(st.begin() + i); break; } } }
      CHECK(S.bad.empty(), S.bad); CHECK(S.cons.size() <= 1, S.cons.size() << " connections are open"); CHECK(S.stms.size() == st.size(), S.stms.size() << " statements are open on the server for " << st.size());
    }
    bool first = s.coin(); if (first) st.clear(); bool up = is_up() && !busy(); size_t before = S.log.size(); NOTE("destroy the connection" << (first ? "" : " before its statements")); cn.reset(); CHECK(S.bad.empty(), S.bad); if (up) { bool rb = S.cons.empty() && false; for (size_t i = before; i < S.log.size(); i++) if (S.log[i].query == "ROLLBACK") rb = true; CHECK(rb, "open work is not rolled back when the connection is destroyed"); }
    if (!st.empty()) { c.label("statements outlive the connection object"); for (auto &x : st) if (x->valid && up && is_up()) { std::vector<V> vs; Vals a = args(x->kinds, vs); Answer &an = S.q[x->q].a; an.refuse = false; an.rows.clear(); size_t b = S.log.size(); bool th = throws([&] { x->p->execute(a); }); if (!th) reached(x->q, vs, b); else CHECK(S.stms.size() > 1, "a statement cannot be used after its connection object"); } } st.clear();
  }
  CHECK(S.bad.empty(), S.bad); CHECK(S.cons.empty(), S.cons.size() << " connections are left open"); CHECK(S.stms.empty(), S.stms.size() << " statements are left open"); CHECK(S.res.empty(), S.res.size() << " result descriptions are not freed");
}
Suite pbt::suite() {
  Suite u; u.property = "C47";
  u.rule = "Histories of up to 60 calls (prepare, execute with generated parameters of every kind, fetch, run, begin, commit, rollback, loss of the connection, destruction in any order) on one connection with several statements, against a stand-in for the MySQL client library and its server: what the server was sent and what the program got back (also columns longer than the fetch buffer) are compared with the generated values, refusals and lost connections with reported errors. Non-trivial: more than 3 calls.";
  u.props = {{"history", history, 20000, 500000, true}};
  u.assumptions = {"the client library behaves as documented (a stand-in answers in its place)", "integer columns are signed", "timestamps lie between 1970 and 2223, and are not in the hour that is passed twice when daylight saving time ends"};
  return u;
}
