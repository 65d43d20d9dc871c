#include "pbt.h"
#include <database/connection.h>
#include <database/statement.h>
#include <database/util.h>
#include <database/database.h>
using namespace pbt;
using namespace pfi::database; using pfi::lang::shared_ptr; using pfi::system::time::clock_time; using pfi::system::time::calendar_time;
struct Val { int k = 0; bool b = false; std::string s; int32_t i = 0; int64_t l = 0; double d = 0; clock_time t = clock_time(0, 0); };   // k: 0 bool 1 string 2 int32 3 int64 4 double 5 time
static Val draw(Src &s, int k = -1) { Val v; v.k = k < 0 ? (int)s.choose(6) : k; v.b = s.coin(); v.s = s.bytes(8); v.i = (int32_t)s.i64(); v.l = s.i64(); v.d = s.finite(); v.t = clock_time(s.choose(4000000000u), (int32_t)s.choose(1000000)); return v; }
static bool same(const sql_value *p, const Val &v) {
  if (!p) return false;
  switch (v.k) { case 0: { auto q = dynamic_cast<const sql_bool *>(p); return q && q->type() == SQL_BOOL && q->get() == v.b; } case 1: { auto q = dynamic_cast<const sql_string *>(p); return q && q->type() == SQL_STRING && q->get() == v.s; } case 2: { auto q = dynamic_cast<const sql_int32 *>(p); return q && q->type() == SQL_INT32 && q->get() == v.i; } case 3: { auto q = dynamic_cast<const sql_int64 *>(p); return q && q->type() == SQL_INT64 && q->get() == v.l; } case 4: { auto q = dynamic_cast<const sql_float *>(p); return q && q->type() == SQL_FLOAT && q->get() == v.d; } default: { auto q = dynamic_cast<const sql_timestamp *>(p); return q && q->type() == SQL_TIMESTAMP && q->get().sec == v.t.sec && q->get().usec == v.t.usec; } }
}
static shared_ptr<sql_value> sql(const Val &v) { switch (v.k) { case 0: return shared_ptr<sql_value>(new sql_bool(v.b)); case 1: return shared_ptr<sql_value>(new sql_string(v.s)); case 2: return shared_ptr<sql_value>(new sql_int32(v.i)); case 3: return shared_ptr<sql_value>(new sql_int64(v.l)); case 4: return shared_ptr<sql_value>(new sql_float(v.d)); case 5: return shared_ptr<sql_value>(new sql_timestamp(v.t)); default: return shared_ptr<sql_value>(new sql_unknown(v.s)); } }
struct Stmt : statement {
  std::vector<shared_ptr<sql_value>> seen, row; int ret = 0, calls = 0; bool more = true;
  int execute(const std::vector<shared_ptr<sql_value>> &a) { seen = a; calls++; return ret; }
  bool fetch_row(std::vector<shared_ptr<sql_value>> &a) { calls++; if (!more) return false; a = row; return true; }
  using statement::execute; using statement::fetch_row;
};
struct Conn : connection {
  std::string log, sql; std::vector<shared_ptr<sql_value>> seen; int ret = 0, calls = 0;
  void begin_transaction() { log += 'B'; } void commit() { log += 'C'; } void rollback() { log += 'R'; }
  int run(const std::string &q, const std::vector<shared_ptr<sql_value>> &a) { sql = q; seen = a; calls++; return ret; } statement *prepare(const std::string &) { return new Stmt; }
  using connection::run;
};
// a fixed repertoire of C++ types per position, chosen by the pattern number: position p of pattern q has kind (p + q) % 6 with an offset
template <int K> struct Ty; template <> struct Ty<0> { typedef bool type; static type get(const Val &v) { return v.b; } }; template <> struct Ty<1> { typedef std::string type; static type get(const Val &v) { return v.s; } }; template <> struct Ty<2> { typedef int32_t type; static type get(const Val &v) { return v.i; } }; template <> struct Ty<3> { typedef int64_t type; static type get(const Val &v) { return v.l; } }; template <> struct Ty<4> { typedef double type; static type get(const Val &v) { return v.d; } }; template <> struct Ty<5> { typedef clock_time type; static type get(const Val &v) { return v.t; } };
static bool eq(bool a, const Val &v) { return a == v.b; } static bool eq(const std::string &a, const Val &v) { return a == v.s; } static bool eq(int32_t a, const Val &v) { return a == v.i; } static bool eq(int64_t a, const Val &v) { return a == v.l; } static bool eq(double a, const Val &v) { return a == v.d; } static bool eq(const clock_time &a, const Val &v) { return a.sec == v.t.sec && a.usec == v.t.usec; }
template <int Q, int P> struct Slot { enum { K = (P * (Q % 2 ? 5 : 1) + Q + P / 6 * 2) % 6 }; typedef Ty<K> T; };
struct Call { virtual ~Call() {} virtual int exec(statement &, const std::vector<Val> &) = 0; virtual int run(connection &, const std::string &, const std::vector<Val> &) = 0; virtual bool fetch(statement &, std::vector<bool> &, const std::vector<Val> &) = 0; virtual int kind(int) = 0; };
template <class F, size_t... I> static auto spread(F f, std::index_sequence<I...>) { return f(std::integral_constant<int, (int)I>()...); }
template <int Q, int N> struct CallN : Call {
  int exec(statement &st, const std::vector<Val> &v) { return spread([&](auto... p) { return st.execute(Slot<Q, decltype(p)::value>::T::get(v[p])...); }, std::make_index_sequence<N>()); }
  int run(connection &cn, const std::string &q, const std::vector<Val> &v) { return spread([&](auto... p) { return cn.run(q, Slot<Q, decltype(p)::value>::T::get(v[p])...); }, std::make_index_sequence<N>()); }
  int kind(int p) { int k[N]; spread([&](auto... q) { int t[] = {(k[q] = Slot<Q, decltype(q)::value>::K)...}; return (int)sizeof t; }, std::make_index_sequence<N>()); return k[p]; }
  bool fetch(statement &st, std::vector<bool> &okv, const std::vector<Val> &v) {
    return spread([&](auto... p) { std::tuple<typename Slot<Q, decltype(p)::value>::T::type...> t{Slot<Q, decltype(p)::value>::T::get(blank())...}; bool r = st.fetch_row(std::get<decltype(p)::value>(t)...); bool o[] = {eq(std::get<decltype(p)::value>(t), v[p])...}; okv.assign(o, o + N); return r; }, std::make_index_sequence<N>());
  }
  static const Val &blank() { static Val b = [] { Val x; x.b = false; x.s = "blank"; x.i = 12345; x.l = 678; x.d = .25; x.t = clock_time(9, 9); return x; }(); return b; }
};
template <int Q> static Call *mk(int n) { switch (n) { case 1: return new CallN<Q, 1>; case 2: return new CallN<Q, 2>; case 3: return new CallN<Q, 3>; case 4: return new CallN<Q, 4>; case 5: return new CallN<Q, 5>; case 6: return new CallN<Q, 6>; case 7: return new CallN<Q, 7>; case 8: return new CallN<Q, 8>; case 9: return new CallN<Q, 9>; default: return new CallN<Q, 10>; } }
static std::unique_ptr<Call> make(int q, int n) { switch (q) { case 0: return std::unique_ptr<Call>(mk<0>(n)); case 1: return std::unique_ptr<Call>(mk<1>(n)); case 2: return std::unique_ptr<Call>(mk<2>(n)); case 3: return std::unique_ptr<Call>(mk<3>(n)); case 4: return std::unique_ptr<Call>(mk<4>(n)); default: return std::unique_ptr<Call>(mk<5>(n)); } }
static void arguments(Src &s, Ctx &c) {
  int n = 1 + (int)s.choose(10), q = (int)s.choose(6); auto call = make(q, n); std::vector<Val> v; for (int i = 0; i < n; i++) v.push_back(draw(s, call->kind(i))); bool conn = s.coin(); NOTE(n << " arguments, pattern " << q << (conn ? ", run" : ", execute")); c.nt(n > 1); int ret = (int)s.range(-5, 1000);
  std::vector<shared_ptr<sql_value>> seen; int calls, got;
  if (conn) { Conn k; k.ret = ret; std::string text = s.bytes(10); got = call->run(k, text, v); seen = k.seen; calls = k.calls; CHECK(k.sql == text, "the statement text changed"); Conn z; z.seen.resize(1); z.run("x"); CHECK(z.calls == 1 && z.seen.empty(), "no arguments"); }
  else { Stmt k; k.ret = ret; got = call->exec(k, v); seen = k.seen; calls = k.calls; Stmt z; z.seen.resize(1); static_cast<statement &>(z).execute(); CHECK(z.calls == 1 && z.seen.empty(), "no arguments"); }
  CHECK(calls == 1, "the driver was called " << calls << " times"); CHECK(got == ret, "returned " << got << ", not " << ret); CHECK((int)seen.size() == n, n << " arguments reached the driver as " << seen.size()); for (int i = 0; i < n; i++) CHECK(same(seen[i].get(), v[i]), "argument " << i + 1 << " of " << n << " did not arrive as given");
}
static void columns(Src &s, Ctx &c) {
  int n = 1 + (int)s.choose(10), q = (int)s.choose(6); auto call = make(q, n); std::vector<Val> v; Stmt k; for (int i = 0; i < n; i++) { v.push_back(draw(s, call->kind(i))); k.row.push_back(sql(v[i])); } int how = (int)s.choose(5); int delta = 0, badp = -1, badk = 0; bool expect_throw = false; c.nt(n > 1);
  if (how == 1) { delta = s.coin() ? 1 : -1; if (delta < 0) k.row.pop_back(); else k.row.push_back(sql(draw(s))); expect_throw = true; c.label("column count differs"); }
  if (how == 2) { badp = (int)s.choose(n); int kd = call->kind(badp); badk = (int)s.choose(7); Val w = draw(s, badk < 6 ? badk : 1); if (badk == 6) w.k = 6; k.row[badp] = sql(w); expect_throw = badk != kd; if (kd == 1) { if (badk != 1) { expect_throw = false; v[badp].s = ""; } } if (badk == kd) v[badp] = w; if (kd == 2 && badk == 3) { expect_throw = w.l < INT32_MIN || w.l > INT32_MAX; v[badp].i = (int32_t)w.l; } if (kd == 3 && badk == 2) { expect_throw = false; v[badp].l = w.i; } c.label(expect_throw ? "column type differs" : "convertible type"); }
  if (how == 3) { k.more = false; c.label("no more rows"); }
  NOTE(n << " columns, pattern " << q << " case " << how << " delta " << delta << " bad " << badp << "/" << badk);
  std::vector<bool> ok; bool thrown = false, r = false; try { r = call->fetch(k, ok, v); } catch (const database_error &) { thrown = true; }
  CHECK(thrown == expect_throw, (thrown ? "an error was raised fetching " : "no error was raised fetching ") << n << " columns from a row of " << k.row.size()); if (thrown) return; CHECK(k.calls == 1, "fetched " << k.calls << " rows"); CHECK(r == k.more, "returned " << r); if (!r) return; for (int i = 0; i < n; i++) CHECK(ok[i], "column " << i + 1 << " of " << n << " was not delivered");
}
// single conversions, including calendar times and C strings
static void conversions(Src &s, Ctx &c) {
  Val v = draw(s); c.nt(); auto p = to_sql(calendar_time(v.t)); auto q = dynamic_cast<sql_timestamp *>(p.get()); CHECK(q && q->get().sec == v.t.sec && q->get().usec == v.t.usec, "calendar time"); calendar_time k = from_sql<calendar_time>(p); clock_time b(k); CHECK(b.sec == v.t.sec && b.usec == v.t.usec, "calendar time read back"); std::string z = s.utf8(6, false); CHECK(from_sql<std::string>(to_sql(z.c_str())) == z, "C string");
  CHECK(from_sql<int64_t>(to_sql(v.i)) == v.i && from_sql<int32_t>(to_sql(v.i)) == v.i && from_sql<int64_t>(to_sql(v.l)) == v.l && from_sql<double>(to_sql(v.d)) == v.d && from_sql<bool>(to_sql(v.b)) == v.b, "conversion");
  bool th = false; try { int32_t n = from_sql<int32_t>(to_sql(v.l)); CHECK((int64_t)n == v.l, "narrowed to " << n); } catch (const database_error &) { th = true; } CHECK(th == (v.l < INT32_MIN || v.l > INT32_MAX), v.l << " as 32 bits: " << (th ? "refused" : "accepted"));
}
struct Stop {};
static void scope(Src &s, Ctx &c, Conn &k, std::string &want, int depth, bool &thrown) {
  // returns normally or throws Stop; want collects the expected calls
  int how = (int)s.choose(4); bool mac = s.coin(); bool inner = depth < 3 && s.coin(1, 3), th = s.coin(1, 3), shared = false; NOTE(std::string(depth * 2, ' ') << "scope" << (mac ? " (macro)" : "") << (th ? " left by exception" : "")); (void)how; (void)shared;
  want += 'B'; bool inner_threw = false;
  struct Back { std::string &w; bool &ok; bool done; ~Back() {} };
  auto body = [&] { k.run("x", 1); if (inner) { if (s.coin()) { try { bool t2 = false; scope(s, c, k, want, depth + 1, t2); } catch (const Stop &) { c.label("inner exception handled inside"); } } else { bool t2 = false; try { scope(s, c, k, want, depth + 1, t2); } catch (const Stop &) { inner_threw = true; throw; } } } if (th) throw Stop(); };
  connection *cp = &k;
  try { if (mac) { transaction(cp) { body(); } } else { committer m(cp); CHECK((bool)m, "a transaction scope is false"); body(); } } catch (const Stop &) { want += 'R'; thrown = true; throw; }
  want += 'C';
}
static void transactions(Src &s, Ctx &c) {
  Conn k; std::string want; size_t n = 1 + s.choose(4); c.nt();
  for (size_t i = 0; i < n; i++) {
    if (s.coin(1, 4)) { shared_ptr<connection> sp(new Conn); Conn *raw = static_cast<Conn *>(sp.get()); bool th = s.coin(); try { transaction(sp) { if (th) throw Stop(); } } catch (const Stop &) {} CHECK(raw->log == (th ? "BR" : "BC"), "a scope over a shared pointer did " << raw->log); c.label("shared pointer"); }
    bool t = false; try { scope(s, c, k, want, 0, t); } catch (const Stop &) {}
    CHECK(k.log == want, "driver calls " << k.log << ", expected " << want);
    if (s.coin(1, 5)) { // early return, break
      auto f = [&]() -> int { connection *cp = &k; transaction(cp) { return 3; } return 0; }; CHECK(f() == 3, "return value"); want += "BC"; for (int q = 0; q < 2; q++) { connection *cp = &k; committer m(cp); if (q == 0) break; } want += "BC"; CHECK(k.log == want, "driver calls " << k.log << ", expected " << want); }
  }
}
Suite pbt::suite() {
  Suite u; u.property = "C43";
  u.rule = "Statement execution, connection runs and row fetches with 1 to 10 arguments or columns whose types are drawn from six patterns over bool, string, 32- and 64-bit integers, double and times, through recording stand-ins for the driver; rows with one column too few or too many, of other types, of convertible types and the end of rows; nested transaction scopes (object and macro form) left normally, by return, break or exceptions thrown at any depth. Non-trivial: more than one argument or column; every transaction history.";
  u.props = {{"arguments", arguments, 40000, 600000, false}, {"columns", columns, 40000, 600000, false}, {"conversions", conversions, 10000, 200000, false}, {"transactions", transactions, 20000, 300000, false}};
  u.assumptions = {"the driver is a stand-in: no database server is available", "a column that is not text read as text gives the empty string (how drivers report NULL)", "scopes entered while another exception is propagating (inside destructors) are not considered"};
  return u;
}
