#include "pbt.h"
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <time.h>
#include <libpq-fe.h>
#include <database/postgresql/connection.h>
using namespace pbt; using namespace pfi::database; using pfi::lang::shared_ptr; using pfi::system::time::clock_time;
typedef std::vector<shared_ptr<sql_value>> Vals;
// ---- a stand-in for libpq and the server behind it, after the documentation of libpq ----
struct Cell { bool null = true; std::string text; };
struct Answer { bool tuples = false; bool refuse = false; std::string msg; std::vector<Oid> types; std::vector<std::vector<Cell>> rows; };
struct pg_conn { bool up = false; std::map<std::string, std::string> prepared; };
struct pg_result { ExecStatusType st; std::string msg; Answer a; };
struct Exec { std::string query; std::vector<Cell> params; };
static struct Server { bool reachable = true, null_result = false; std::set<pg_conn *> conns; std::set<pg_result *> results; std::map<std::string, Answer> answers; std::set<std::string> refused; std::vector<Exec> log; std::map<std::string, std::string> info; int connects = 0; std::string bad; } S;
static bool isword(const std::string &q, const char *w) { return q.compare(0, strlen(w), w) == 0; }
static pg_result *result(ExecStatusType st, const std::string &msg = "") { auto r = new pg_result{st, msg, Answer()}; S.results.insert(r); return r; }
static pg_conn *known(PGconn *c) { if (!S.conns.count(c)) { S.bad = "a call on a connection that is not open"; } return c; }
static pg_result *known(const PGresult *r) { auto p = const_cast<pg_result *>(r); if (!S.results.count(p)) throw Fail("a call on a result that was cleared"); return p; }
static bool conninfo(const std::string &s, std::map<std::string, std::string> &m) {   // the conninfo syntax of libpq
  size_t i = 0; auto sp = [&] { while (i < s.size() && isspace((unsigned char)s[i])) i++; };
  for (;;) { sp(); if (i == s.size()) return true; std::string k, v; while (i < s.size() && s[i] != '=' && !isspace((unsigned char)s[i])) k += s[i++]; sp(); if (i == s.size() || s[i] != '=') return false; i++; sp();
    if (i < s.size() && s[i] == '\'') { i++; for (;; i++) { if (i >= s.size()) return false; if (s[i] == '\'') { i++; break; } if (s[i] == '\\' && i + 1 < s.size()) i++; v += s[i]; } }
    else while (i < s.size() && !isspace((unsigned char)s[i])) { if (s[i] == '\\') { if (++i >= s.size()) break; } v += s[i++]; }
    m[k] = v; }
}
static pg_result *execute(const std::string &q, const std::vector<Cell> &p) {
  S.log.push_back({q, p}); if (S.refused.count(q)) return result(PGRES_FATAL_ERROR, "refused: " + q);
  auto it = S.answers.find(q); if (it == S.answers.end()) return result(PGRES_COMMAND_OK); if (it->second.refuse) return result(PGRES_FATAL_ERROR, it->second.msg); auto r = result(it->second.tuples ? PGRES_TUPLES_OK : PGRES_COMMAND_OK); r->a = it->second; return r;
}
static std::vector<Cell> cells(int n, const char *const *v, const int *len, const int *fmt) { std::vector<Cell> r(n); for (int i = 0; i < n; i++) if (v && v[i]) { r[i].null = false; r[i].text = fmt && fmt[i] ? std::string(v[i], len[i]) : std::string(v[i]); } return r; }
extern "C" {
int PQisthreadsafe(void) { return 1; }
PGconn *PQconnectdb(const char *s) { auto c = new pg_conn; S.conns.insert(c); S.info.clear(); S.connects++; c->up = conninfo(s, S.info) && S.reachable; return c; }
ConnStatusType PQstatus(const PGconn *c) { return c && known((PGconn *)c)->up ? CONNECTION_OK : CONNECTION_BAD; }
void PQreset(PGconn *c) { known(c)->prepared.clear(); c->up = S.reachable; }
void PQfinish(PGconn *c) { if (!c) return; known(c); if (S.conns.erase(c)) delete c; }
char *PQerrorMessage(const PGconn *) { return (char *)"connection trouble"; }
PGresult *PQprepare(PGconn *c, const char *name, const char *q, int, const Oid *) {
  if (!known(c)->up) return result(PGRES_FATAL_ERROR, "no connection"); if (S.refused.count(std::string("prepare ") + q)) return result(PGRES_FATAL_ERROR, std::string("syntax error in ") + q);
  if (*name && c->prepared.count(name)) return result(PGRES_FATAL_ERROR, std::string("prepared statement \"") + name + "\" already exists"); c->prepared[name] = q; return result(PGRES_COMMAND_OK);
}
PGresult *PQexecPrepared(PGconn *c, const char *name, int n, const char *const *v, const int *len, const int *fmt, int rf) {
  if (S.null_result) { S.null_result = false; return nullptr; } if (!known(c)->up) return result(PGRES_FATAL_ERROR, "no connection"); if (rf) S.bad = "binary results asked for"; auto it = c->prepared.find(name); if (it == c->prepared.end()) return result(PGRES_FATAL_ERROR, std::string("prepared statement \"") + name + "\" does not exist"); return execute(it->second, cells(n, v, len, fmt));
}
PGresult *PQexecParams(PGconn *c, const char *q, int n, const Oid *, const char *const *v, const int *len, const int *fmt, int rf) { if (!known(c)->up) return result(PGRES_FATAL_ERROR, "no connection"); if (rf) S.bad = "binary results asked for"; return execute(q, cells(n, v, len, fmt)); }
PGresult *PQexec(PGconn *c, const char *q) {
  if (!known(c)->up) return result(PGRES_FATAL_ERROR, "no connection"); std::string s(q);
  if (isword(s, "DEALLOCATE ")) { std::string n = s.substr(11); if (isword(n, "PREPARE ")) n = n.substr(8); while (n.size() && (n.back() == ';' || n.back() == ' ')) n.pop_back(); if (n.size() > 1 && n[0] == '"') n = n.substr(1, n.size() - 2); if (!c->prepared.erase(n)) { S.bad = "DEALLOCATE of a statement that does not exist"; return result(PGRES_FATAL_ERROR, "no such statement"); } return result(PGRES_COMMAND_OK); }
  return execute(s, {});
}
ExecStatusType PQresultStatus(const PGresult *r) { return r ? known(r)->st : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage(const PGresult *r) { return r ? (char *)known(r)->msg.c_str() : (char *)""; }
int PQntuples(const PGresult *r) { return r ? (int)known(r)->a.rows.size() : 0; }
int PQnfields(const PGresult *r) { return r ? (int)known(r)->a.types.size() : 0; }
char *PQfname(const PGresult *, int i) { static char n[8]; snprintf(n, sizeof n, "c%d", i % 10000); return n; }
Oid PQftype(const PGresult *r, int i) { if (i < 0 || i >= PQnfields(r)) throw Fail("column number out of range"); return r->a.types[i]; }
static const Cell &cell(const PGresult *r, int y, int x) { if (y < 0 || y >= PQntuples(r) || x < 0 || x >= PQnfields(r)) throw Fail("row or column number out of range"); return r->a.rows[y][x]; }
char *PQgetvalue(const PGresult *r, int y, int x) { return (char *)cell(r, y, x).text.c_str(); }
int PQgetisnull(const PGresult *r, int y, int x) { return cell(r, y, x).null; }
int PQgetlength(const PGresult *r, int y, int x) { return (int)cell(r, y, x).text.size(); }
char *PQcmdTuples(PGresult *) { return (char *)"0"; }
void PQclear(PGresult *r) { if (!r) return; if (!S.results.erase(r)) { S.bad = "a result is cleared twice"; return; } delete r; }
}
// ---- values ----
struct V { int k = 0; bool b = false; std::string s; int64_t n = 0; double d = 0; int64_t sec = 0; int usec = 0; };   // k: 0 null 1 bool 2 string 3 int32 4 int64 5 float 6 timestamp 7 unknown
static std::string words(Src &s, size_t max) { std::string r = s.coin(1, 12) ? s.blob(s.edge_len(20000)) : s.coin(1, 3) ? s.over("a '\"?\\$1%;", max) : s.utf8(max, false); for (auto &c : r) if (!c) c = 'z'; return r; }
static int64_t clear(int64_t x) {   // an instant whose local time no other instant shares
  auto f = [](time_t t) { tm m; localtime_r(&t, &m); return m.tm_hour * 60 + m.tm_min; }; while (f(x) == f(x + 3600) || f(x) == f(x - 3600)) x += 3600; return x; }
static V value(Src &s, int k) { V v; v.k = k; switch (k) { case 1: v.b = s.coin(); break; case 2: case 7: v.s = words(s, 20); break; case 3: v.n = (int32_t)s.i64(); break; case 4: v.n = s.i64(); break; case 5: v.d = s.coin(1, 10) ? s.pick<double>({std::nan(""), INFINITY, -INFINITY}) : s.coin() ? s.finite() : s.range(-100000, 100000) / 100.0; break; case 6: v.sec = s.coin(1, 4) ? s.range(1, 100000) * 86400 - s.choose(2) : s.coin(1, 3) ? s.range(0, 8000000000ll) : s.range(0, 8000000000ll / 86400) * 86400 + s.choose(200); v.sec = clear(v.sec); v.usec = (int)(s.coin(1, 3) ? 0 : s.coin() ? s.pick<int>({500000, 1, 10, 120000, 999999, 100000, 42}) : s.choose(1000000)); } return v; }
static std::string text(const V &v) { std::ostringstream o; switch (v.k) { case 0: o << "null"; break; case 1: o << (v.b ? "true" : "false"); break; case 2: case 7: o << show(v.s, 60); break; case 3: case 4: o << v.n; break; case 5: o << v.d; break; default: o << v.sec << "s+" << v.usec; } return o.str(); }
static shared_ptr<sql_value> sql(const V &v) { typedef shared_ptr<sql_value> P; switch (v.k) { case 0: return P(); case 1: return P(new sql_bool(v.b)); case 2: return P(new sql_string(v.s)); case 3: return P(new sql_int32((int32_t)v.n)); case 4: return P(new sql_int64(v.n)); case 5: return P(new sql_float(v.d)); case 6: return P(new sql_timestamp(clock_time(v.sec, v.usec))); default: return P(new sql_unknown(v.s)); } }
static bool feq(double a, double b) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
static bool holds(const shared_ptr<sql_value> &p, const V &v) {
  if (v.k == 0) return !p; if (!p) return false;
  switch (v.k) { case 1: { auto q = dynamic_cast<sql_bool *>(p.get()); return q && q->get() == v.b; } case 2: { auto q = dynamic_cast<sql_string *>(p.get()); return q && q->get() == v.s; } case 3: { auto q = dynamic_cast<sql_int32 *>(p.get()); return q && q->get() == v.n; } case 4: { auto q = dynamic_cast<sql_int64 *>(p.get()); return q && q->get() == v.n; } case 5: { auto q = dynamic_cast<sql_float *>(p.get()); return q && feq(q->get(), v.d); }
    case 6: { auto q = dynamic_cast<sql_timestamp *>(p.get()); return q && q->get().sec == v.sec && q->get().usec == v.usec; } default: { auto q = dynamic_cast<sql_unknown *>(p.get()); return q && q->get() == v.s; } }
}
static std::string stamp(const V &v, bool full) { time_t t = v.sec; tm m; localtime_r(&t, &m); char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); std::string r = b; if (v.usec || full) { snprintf(b, sizeof b, ".%06d", v.usec); r += b; if (!full) while (r.back() == '0') r.pop_back(); } return r; }
static std::string num(double d, int p) { if (std::isnan(d)) return "NaN"; if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity"; char b[64]; for (int k = p == 9 ? 6 : 15; k <= p; k++) { snprintf(b, sizeof b, "%.*g", k, d); if (strtod(b, nullptr) == d) break; } return b; }   // the shortest exact text, as PostgreSQL 12 and later send it
// the value a parameter text stands for, by the input syntax of the types
static bool reads(const Cell &c, const V &v) {
  if (v.k == 0 || c.null) return (v.k == 0) == c.null; const std::string &t = c.text;
  switch (v.k) { case 1: return v.b ? t == "true" || t == "t" || t == "1" || t == "TRUE" : t == "false" || t == "f" || t == "0" || t == "FALSE"; case 2: case 7: return t == v.s; case 3: case 4: return t == std::to_string(v.n);
    case 5: { if (t.empty() || isspace((unsigned char)t[0])) return false; char *e; double d = strtod(t.c_str(), &e); return !*e && feq(d, v.d) ; }
    default: { std::string d = stamp(v, true); size_t dot = t.find('.'); std::string head = t.substr(0, dot), frac = dot == std::string::npos ? "" : t.substr(dot + 1); frac.resize(6, '0'); return head + "." + frac == d; } }
}
// ---- histories ----
struct St { std::unique_ptr<statement> p; std::string expect; std::vector<int> kinds; bool valid = true, result = false; std::vector<std::vector<V>> rows; size_t at = 0; bool bad_row = false; };
static int serial;
static std::string query(Src &s, std::string &expect, size_t &n) {   // a query and the text the server should get
  std::string q, e; n = 0; auto both = [&](const std::string &t) { q += t; e += t; }; both("SELECT " + std::to_string(serial++) + " "); size_t k = s.size(s.coin(1, 15) ? 60 : 10);
  for (size_t i = 0; i < k; i++) switch (s.choose(6)) { case 0: both(s.pick<std::string>({"a=", ", ", "FROM t ", "(", ") ", "\n", "$ ", "x_1 "})); break; case 1: both("'" + s.over("ab?$1 \\", 5) + s.pick<std::string>({"", "''", "''?", "\"", "\"?", "\\"}) + "'"); break; case 2: both("\"" + s.over("ab? ", 4) + s.pick<std::string>({"", "'", "'?", "\"\""}) + "\""); break; default: q += "?"; e += "$" + std::to_string(++n); if (s.coin()) both(s.pick<std::string>({",", " ", "0", ")"})); }
  expect = e; return q;
}
static const std::vector<std::pair<Oid, int>> &oids() { static const std::vector<std::pair<Oid, int>> o = {{16, 1}, {20, 4}, {21, 3}, {23, 3}, {25, 2}, {1043, 2}, {700, 5}, {701, 5}, {1114, 6}, {1700, 7}, {2950, 7}, {1082, 7}, {114, 7}, {19, 7}}; return o; }
static Answer answer(Src &s, Ctx &c, std::vector<std::vector<V>> &want, bool &odd) {
  Answer a; want.clear(); odd = false; if (s.coin(1, 8)) return a; a.tuples = true; size_t n = s.size(s.coin(1, 20) ? 40 : 6), m = s.size(s.coin(1, 30) ? 300 : 6); for (size_t i = 0; i < n; i++) a.types.push_back(s.pick(oids()).first);
  for (size_t y = 0; y < m; y++) { std::vector<Cell> r(n); std::vector<V> w(n); for (size_t x = 0; x < n; x++) { int k = 7; for (auto &o : oids()) if (o.first == a.types[x]) k = o.second; if (s.coin(1, 8)) continue; V v = value(s, k); if (a.types[x] == 21) v.n = (int16_t)v.n; if (a.types[x] == 700) v.d = (float)v.d; w[x] = v; r[x].null = false;
      switch (k) { case 1: r[x].text = v.b ? "t" : "f"; break; case 2: case 7: r[x].text = v.s; break; case 3: case 4: r[x].text = std::to_string(v.n); break; case 5: r[x].text = num(v.d, a.types[x] == 700 ? 9 : 17); if (a.types[x] == 700) w[x].d = strtod(r[x].text.c_str(), nullptr); break; default: r[x].text = stamp(v, false); if (s.coin(1, 40)) { r[x].text = s.pick<std::string>({"infinity", "-infinity", "0044-03-15 00:00:00 BC"}); odd = true; } } }
    a.rows.push_back(r); want.push_back(w); if (odd) break; }
  if (m > 1) c.label("several rows"); if (odd) c.label("a timestamp without a value"); return a;
}
template <class F> static bool throws(F f, std::string *msg = nullptr) { try { f(); return false; } catch (const database_error &e) { if (msg) *msg = e.what(); return true; } }
static void history(Src &s, Ctx &c) {
  static const char *tz[] = {"UTC0", "JST-9", "EST5", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"}; setenv("TZ", tz[s.choose(6)], 1); tzset(); for (auto p : S.results) delete p; for (auto p : S.conns) delete p; S = Server(); serial = 0;
  { std::string host, db, user, pw; std::unique_ptr<connection> cn; bool info = s.coin(); int port = (int)s.choose(65536);
    if (info) { auto w = [&] { return s.coin() ? s.over("ab '\\=", 6) : s.utf8(5, false); }; host = w(); db = w(); user = w(); pw = w(); NOTE("connect(" << show(host) << "," << port << "," << show(db) << "," << show(user) << "," << show(pw) << ")"); cn.reset(pfi::database::postgresql::connect(host, (uint16_t)port, db, user, pw)); CHECK(S.info["host"] == host && S.info["port"] == std::to_string(port) && S.info["dbname"] == db && S.info["user"] == user && S.info["password"] == pw && S.info.size() == 5, "connected with host " << show(S.info["host"]) << " port " << S.info["port"] << " dbname " << show(S.info["dbname"]) << " user " << show(S.info["user"]) << " password " << show(S.info["password"])); }
    else { if (s.coin(1, 20)) { S.reachable = false; bool th = throws([&] { pfi::database::postgresql::connect("host=a"); }); CHECK(th, "connecting to a server that does not answer succeeds"); CHECK(S.conns.empty(), "a failed connection is not released"); S.reachable = true; } cn.reset(pfi::database::postgresql::connect("host=h dbname=d")); CHECK(S.info["host"] == "h" && S.info["dbname"] == "d", "connection string was changed"); }
    std::vector<std::unique_ptr<St>> st; size_t ops = 1 + s.size(s.coin(1, 20) ? 60 : 16); bool dropped = false; c.nt(ops > 3);
    auto live = [&] { return S.conns.empty() ? nullptr : *S.conns.begin(); };
    auto args = [&](const std::vector<int> &kinds, std::vector<V> &vs) { Vals a; for (int k : kinds) { vs.push_back(value(s, k)); a.push_back(sql(vs.back())); } return a; };
    auto kinds = [&](size_t n) { std::vector<int> k; for (size_t i = 0; i < n; i++) k.push_back((int)s.choose(8)); return k; };
    auto reached = [&](const std::string &expect, const std::vector<V> &vs, size_t before) { CHECK(S.log.size() == before + 1, "the server saw " << S.log.size() - before << " executions instead of one"); const Exec &e = S.log.back(); CHECK(e.query == expect, "the server ran " << show(e.query) << ", not " << show(expect)); CHECK(e.params.size() == vs.size(), "the server got " << e.params.size() << " parameters, not " << vs.size()); for (size_t i = 0; i < vs.size(); i++) CHECK(reads(e.params[i], vs[i]), "parameter " << i + 1 << " is " << text(vs[i]) << " (kind " << vs[i].k << ") and arrives as " << (e.params[i].null ? "NULL" : show(e.params[i].text, 80))); };
    for (size_t k = 0; k < ops; k++) {
      bool down = !live()->up && !S.reachable; if (!live()->up) for (auto &x : st) x->valid = false; S.null_result = false;
      int op = (int)s.choose(12); St *x = st.empty() ? nullptr : s.pick(st).get();
      switch (op) {
        case 0: case 1: { auto y = std::make_unique<St>(); size_t n; std::string q = query(s, y->expect, n); bool refuse = s.coin(1, 12); if (refuse) S.refused.insert("prepare " + y->expect); NOTE("prepare " << show(q) << (refuse ? " (to be refused)" : "")); y->kinds = kinds(n); std::string m; bool th = throws([&] { y->p.reset(cn->prepare(q)); }, &m); CHECK(th == (refuse || down), "preparing " << show(q) << (th ? " fails: " + m : " succeeds")); if (refuse && !down) CHECK(m.find("syntax error") != std::string::npos, "the error of the server is reported as " << show(m)); if (!th) st.push_back(std::move(y)); if (st.size() > 1) c.label("several statements"); break; }
        case 2: case 3: case 4: if (x) { std::vector<V> vs; Vals a = args(x->kinds, vs); bool odd; std::vector<std::vector<V>> want; Answer an = answer(s, c, want, odd); if (s.coin(1, 12)) { an.refuse = true; an.msg = "it is refused"; } bool nul = s.coin(1, 30); S.null_result = nul; S.answers[x->expect] = an; size_t before = S.log.size(); NOTE("execute " << show(x->expect) << " with " << vs.size() << " parameters" << (an.refuse ? ", to be refused" : "")); std::string m; bool th = throws([&] { x->p->execute(a); }, &m);
            if (down || an.refuse || nul || !x->valid) { if (down || nul || (x->valid && an.refuse)) CHECK(th, "a failed execution is not reported"); if (!th && !x->valid) x->valid = true; if (th) { x->result = false; x->bad_row = true; if (x->valid && !nul && !down) { CHECK(m.find("it is refused") != std::string::npos, "the error of the server is reported as " << show(m)); reached(x->expect, vs, before); } c.label("failed execution"); break; } }
            CHECK(!th, "executing fails: " << m); reached(x->expect, vs, before); x->rows = want; x->at = 0; x->result = true; x->bad_row = false; for (auto &w : want) if (&w == &want.back() && odd) x->bad_row = true; c.label("executed"); } break;
        case 5: case 6: case 7: if (x && (x->result || !x->bad_row)) { size_t n = s.coin() ? 1 : 1 + s.choose(8); NOTE("fetch " << n << " rows of " << show(x->expect)); for (size_t i = 0; i < n; i++) { Vals row; if (s.coin(1, 4)) row.resize(3, shared_ptr<sql_value>(new sql_int32(7))); bool last = x->result && x->bad_row && x->at + 1 == x->rows.size(); bool r = false, th = throws([&] { r = x->p->fetch_row(row); }); if (last) { CHECK(th, "a timestamp that cannot be represented was fetched"); x->result = false; break; } CHECK(!th, "fetching fails"); if (!x->result || x->at >= x->rows.size()) { CHECK(!r, "a row was fetched after the last one"); continue; } CHECK(r, "no row " << x->at << " of " << x->rows.size()); auto &w = x->rows[x->at]; CHECK(row.size() == w.size(), "a row of " << row.size() << " columns instead of " << w.size()); for (size_t j = 0; j < w.size(); j++) CHECK(holds(row[j], w[j]), "row " << x->at << " column " << j << " is not " << text(w[j]) << " (kind " << w[j].k << ")"); x->at++; c.label("fetched"); } } break;
        case 8: { std::string e; size_t n; std::string q = query(s, e, n); std::vector<V> vs; Vals a = args(kinds(n), vs); Answer an; an.refuse = s.coin(1, 6); an.msg = "it is refused"; S.answers[e] = an; size_t before = S.log.size(); NOTE("run " << show(q)); bool th = throws([&] { cn->run(q, a); }); CHECK(th == (an.refuse || down), "running " << show(q) << (th ? " fails" : " succeeds")); if (!down) reached(e, vs, before); break; }
        case 9: { const char *w[] = {"BEGIN", "COMMIT", "ROLLBACK"}; int i = (int)s.choose(3); bool refuse = s.coin(1, 5); if (refuse) S.refused.insert(w[i]); NOTE(w[i] << (refuse ? " (to be refused)" : "")); size_t before = S.log.size(); bool th = throws([&] { if (i == 0) cn->begin_transaction(); else if (i == 1) cn->commit(); else cn->rollback(); }); S.refused.erase(w[i]); CHECK(th == (refuse || down), w[i] << (th ? " fails" : " succeeds though the server did not accept it")); if (!down) reached(w[i], {}, before); c.label("transaction"); break; }
        case 10: if (s.coin(1, 3)) { NOTE("the connection is lost"); live()->up = false; S.reachable = s.coin(); dropped = true; c.label("connection lost"); } else { NOTE("the server is back"); S.reachable = true; } break;
        default: if (x) { NOTE("destroy " << show(x->expect)); for (size_t i = 0; i < st.size(); i++) if (st[i].get() == x) { st.erase(st.begin() + i); break; } } }
      CHECK(S.bad.empty(), S.bad); CHECK(S.conns.size() == 1, S.conns.size() << " connections are open");
      if (live()->up) { size_t n = 0; for (auto &y : st) n += y->valid; CHECK(live()->prepared.size() <= st.size() + 1, "the server keeps " << live()->prepared.size() << " prepared statements for " << st.size()); }
    }
    bool first = s.coin(); if (first) st.clear(); bool up = live()->up; size_t before = S.log.size(); NOTE("destroy the connection" << (first ? "" : " before its statements")); cn.reset(); CHECK(S.bad.empty(), S.bad); if (up) { bool rb = false; for (size_t i = before; i < S.log.size(); i++) if (S.log[i].query == "ROLLBACK") rb = true; CHECK(rb, "open work is not rolled back when the connection is destroyed"); }
    if (!st.empty()) { c.label("statements outlive the connection object"); CHECK(S.conns.size() == 1, "the connection was closed under its statements"); for (auto &x : st) if (x->valid && up && live()->up) { std::vector<V> vs; Vals a = args(x->kinds, vs); S.answers[x->expect] = Answer(); size_t b = S.log.size(); x->p->execute(a); reached(x->expect, vs, b); } } st.clear(); (void)dropped;
  }
  CHECK(S.bad.empty(), S.bad); CHECK(S.conns.empty(), S.conns.size() << " connections are left open"); CHECK(S.results.empty(), S.results.size() << " results are not cleared");
}
Suite pbt::suite() {
  Suite u; u.property = "C46";
  u.rule = "Histories of up to 60 calls (prepare, execute with generated parameters of every kind, fetch, run, begin, commit, rollback, loss of the connection, destruction in any order) on one connection with several statements, against a stand-in for libpq and its server: what the server was sent and what the program got back are compared with the generated values, refusals and lost connections with reported errors. Non-trivial: more than 3 calls.";
  u.props = {{"history", history, 20000, 500000, true}};
  u.assumptions = {"libpq behaves as documented (a stand-in answers in its place)", "text holds no NUL byte", "timestamps lie between 1970 and 2223, and are not in the hour that is passed twice when daylight saving time ends", "quotes in SQL text are closed by the same quote"};
  u.once = [] { std::cout.rdbuf(nullptr); };
  return u;
}
