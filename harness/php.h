// A small interpreter of PHP 5, enough for the client library of genrpc and the clients it writes: classes, functions, the usual
// statements and operators, arrays, exceptions, pack/unpack and streams.  What it does not know raises Unsupported, what PHP itself
// would refuse raises Fatal, a PHP exception raises Thrown.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace php {
struct Unsupported { std::string msg; }; struct Fatal { std::string msg; };
struct Arr; struct Obj;
struct V { enum T { Null, Bool, Int, Dbl, Str, Array, Object, Stream } t = Null; int64_t i = 0; double d = 0; std::string s; std::shared_ptr<Arr> a; std::shared_ptr<Obj> o;
  V() {} static V b(bool x) { V v; v.t = Bool; v.i = x; return v; } static V n(int64_t x) { V v; v.t = Int; v.i = x; return v; } static V f(double x) { V v; v.t = Dbl; v.d = x; return v; } static V str(const std::string &x) { V v; v.t = Str; v.s = x; return v; } static V stream(int64_t h) { V v; v.t = Stream; v.i = h; return v; } static V arr(); };
struct Key { bool num; int64_t i; std::string s; bool operator<(const Key &k) const { return num != k.num ? num < k.num : num ? i < k.i : s < k.s; } };
struct Arr { std::vector<std::pair<Key, V>> e; std::map<Key, size_t> at; int64_t next = 0;
  V *find(const Key &k) { auto p = at.find(k); return p == at.end() ? nullptr : &e[p->second].second; }
  V &get(const Key &k) { auto p = at.find(k); if (p != at.end()) return e[p->second].second; at[k] = e.size(); e.push_back({k, V()}); if (k.num && k.i >= next) next = k.i + 1; return e.back().second; }
  V &push() { return get(Key{true, next, ""}); }
  void erase(const Key &k) { auto p = at.find(k); if (p == at.end()) return; size_t q = p->second; e.erase(e.begin() + (long)q); at.erase(p); for (auto &x : at) if (x.second > q) x.second--; } };
inline V V::arr() { V v; v.t = Array; v.a = std::make_shared<Arr>(); return v; }
struct Class; struct Obj { Class *c; std::vector<std::pair<std::string, V>> p; V *find(const std::string &n) { for (auto &x : p) if (x.first == n) return &x.second; return nullptr; } V &get(const std::string &n) { if (V *v = find(n)) return *v; p.push_back({n, V()}); return p.back().second; } };
struct Thrown { V v; };
constexpr uint32_t H(const char *s) { uint32_t h = 2166136261u; while (*s) h = (h ^ (unsigned char)*s++) * 16777619u; return h; }   // kinds of nodes are compared by number
struct N { std::string k, s; uint32_t h = 0; std::vector<std::shared_ptr<N>> c; V v; }; typedef std::shared_ptr<N> P;
struct Func { std::string name; struct Par { std::string n; P def; bool ref; }; std::vector<Par> pars; P body; bool stat = false; };
struct Class { std::string name, parent; std::vector<std::pair<std::string, P>> props; std::map<std::string, Func> m; std::map<std::string, P> consts; std::map<std::string, V> statics; };
inline std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
// ---- words ----
struct Tok { enum T { End, Var, Id, Num, Str, Tpl, Op } t; std::string s; V v; };
inline bool idc(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c & 0x80); }
inline std::vector<Tok> words(const std::string &s) {
  std::vector<Tok> r; size_t p = s.find("<?"); if (p == std::string::npos) throw Fatal{"no PHP code"}; p += 2; if (s.compare(p, 3, "php") == 0) p += 3; auto op = [&](const std::string &x) { r.push_back({Tok::Op, x, V()}); };
  while (p < s.size()) { char c = s[p];
    if (isspace((unsigned char)c)) { p++; continue; }
    if (c == '#' || s.compare(p, 2, "//") == 0) { while (p < s.size() && s[p] != '\n') p++; continue; }
    if (s.compare(p, 2, "/*") == 0) { size_t e = s.find("*/", p + 2); if (e == std::string::npos) throw Fatal{"comment without an end"}; p = e + 2; continue; }
    if (s.compare(p, 2, "?>") == 0) { p = s.find("<?", p); op(";"); if (p == std::string::npos) break; p += 2; if (s.compare(p, 3, "php") == 0) p += 3; continue; }
    if (c == '$' && p + 1 < s.size() && idc(s[p + 1]) && !isdigit((unsigned char)s[p + 1])) { size_t q = p + 1; while (q < s.size() && idc(s[q])) q++; r.push_back({Tok::Var, s.substr(p + 1, q - p - 1), V()}); p = q; continue; }
    if (isdigit((unsigned char)c)) { size_t q = p; Tok t{Tok::Num, "", V()}; if (c == '0' && p + 1 < s.size() && (s[p + 1] == 'x' || s[p + 1] == 'X')) { q = p + 2; while (q < s.size() && isxdigit((unsigned char)s[q])) q++; t.v = V::n((int64_t)strtoull(s.substr(p, q - p).c_str(), 0, 16)); } else { bool f = false; while (q < s.size() && (isdigit((unsigned char)s[q]) || (s[q] == '.' && !f) || ((s[q] == 'e' || s[q] == 'E') && q + 1 < s.size() && (isdigit((unsigned char)s[q + 1]) || s[q + 1] == '-')))) { if (!isdigit((unsigned char)s[q])) { f = true; if (s[q] != '.' && s[q + 1] == '-') q++; } q++; } std::string x = s.substr(p, q - p); t.v = f ? V::f(strtod(x.c_str(), 0)) : V::n((int64_t)strtoll(x.c_str(), 0, x.size() > 1 && x[0] == '0' ? 8 : 10)); } r.push_back(t); p = q; continue; }
    if (idc(c)) { size_t q = p; while (q < s.size() && (idc(s[q]) || s[q] == '\\')) q++; r.push_back({Tok::Id, s.substr(p, q - p), V()}); p = q; continue; }
    if (c == '\'') { std::string x; size_t q = p + 1; for (;; q++) { if (q >= s.size()) throw Fatal{"string without an end"}; if (s[q] == '\'') break; if (s[q] == '\\' && q + 1 < s.size() && (s[q + 1] == '\'' || s[q + 1] == '\\')) q++; x += s[q]; } r.push_back({Tok::Str, "", V::str(x)}); p = q + 1; continue; }
    if (c == '"') { size_t q = p + 1; std::string raw; for (;; q++) { if (q >= s.size()) throw Fatal{"string without an end"}; if (s[q] == '"') break; raw += s[q]; if (s[q] == '\\' && q + 1 < s.size()) raw += s[++q]; } r.push_back({Tok::Tpl, raw, V()}); p = q + 1; continue; }
    static const char *ops[] = {"===", "!==", "<<=", ">>=", "...", "<=>", "**=", "==", "!=", "<>", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", ".=", "%=", "&=", "|=", "^=", "->", "::", "=>", "<<", ">>", "**", "??", 0}; bool hit = false; for (int i = 0; ops[i]; i++) if (s.compare(p, strlen(ops[i]), ops[i]) == 0) { op(ops[i]); p += strlen(ops[i]); hit = true; break; } if (hit) continue;
    if (strchr("+-*/%.=<>!~&|^?:;,(){}[]@$", c)) { op(std::string(1, c)); p++; continue; }
    throw Fatal{std::string("unexpected character ") + c}; }
  r.push_back({Tok::End, "", V()}); return r; }
// ---- grammar ----
struct Parser { std::vector<Tok> w; size_t p = 0; std::map<std::string, Class> *cls; std::map<std::string, Func> *fun; Class *cur = nullptr;
  const Tok &t() const { return w[p]; } bool is(const char *o) const { return w[p].t == Tok::Op && w[p].s == o; } bool kw(const char *k) const { return w[p].t == Tok::Id && lower(w[p].s) == k; } bool eat(const char *o) { if (is(o)) { p++; return true; } return false; } bool eatk(const char *k) { if (kw(k)) { p++; return true; } return false; }
  [[noreturn]] void bad(const std::string &why) { std::string c; for (size_t i = p > 3 ? p - 3 : 0; i < w.size() && i < p + 4; i++) c += std::string(i == p ? " >>" : " ") + (w[i].t == Tok::Var ? "$" : "") + w[i].s; throw Fatal{"syntax error: " + why + " at" + c}; }
  void need(const char *o) { if (!eat(o)) bad(std::string("expected ") + o); } std::string id() { if (t().t != Tok::Id) bad("expected a name"); return w[p++].s; }
  static P mk(const std::string &k, const std::string &s = "", std::vector<P> c = {}) { P n(new N); n->k = k; n->h = H(k.c_str()); n->s = s; n->c = std::move(c); return n; } static P lit(const V &v) { P n = mk("lit"); n->v = v; return n; }
  static std::string esc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '\\' || i + 1 == s.size()) { r += s[i]; continue; } char c = s[++i]; switch (c) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'v': r += '\v'; break; case 'f': r += '\f'; break; case 'e': r += '\x1b'; break; case '\\': case '$': case '"': r += c; break; case 'x': if (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) { int n = 0, v = 0; while (n < 2 && i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) { v = v * 16 + (int)strtol(std::string(1, s[++i]).c_str(), 0, 16); n++; } r += (char)v; } else r += "\\x"; break; default: if (c >= '0' && c <= '7') { int v = c - '0', n = 1; while (n < 3 && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7') { v = v * 8 + (s[++i] - '0'); n++; } r += (char)v; } else { r += '\\'; r += c; } } } return r; }
  P tpl(const std::string &s) { std::vector<P> parts; std::string cur; auto flush = [&] { if (!cur.empty()) parts.push_back(lit(V::str(esc(cur)))); cur.clear(); };
    for (size_t i = 0; i < s.size();) { if (s[i] == '\\' && i + 1 < s.size()) { cur += s[i]; cur += s[i + 1]; i += 2; continue; } if (s[i] == '{' && i + 1 < s.size() && s[i + 1] == '$') { size_t d = 1, e = i + 1; while (e < s.size() && d) { if (s[e] == '{') d++; if (s[e] == '}') d--; e++; } if (d) throw Fatal{"unbalanced {$ in a string"}; flush(); Parser q; q.w = words("<? " + s.substr(i + 1, e - i - 2)); q.cls = cls; q.fun = fun; q.cur = this->cur; parts.push_back(q.expr()); i = e; continue; }
      if (s[i] == '$' && i + 1 < s.size() && idc(s[i + 1]) && !isdigit((unsigned char)s[i + 1])) { flush(); size_t e = i + 1; while (e < s.size() && idc(s[e])) e++; P v = mk("var", s.substr(i + 1, e - i - 1)); if (s.compare(e, 2, "->") == 0 && e + 2 < s.size() && idc(s[e + 2])) { size_t g = e + 2; while (g < s.size() && idc(s[g])) g++; v = mk("prop", "", {v, lit(V::str(s.substr(e + 2, g - e - 2)))}); e = g; } else if (e < s.size() && s[e] == '[') { size_t g = s.find(']', e); if (g == std::string::npos) throw Fatal{"[ in a string"}; std::string x = s.substr(e + 1, g - e - 1); P k = x.size() && x[0] == '$' ? mk("var", x.substr(1)) : x.size() && isdigit((unsigned char)x[0]) ? lit(V::n(atoll(x.c_str()))) : lit(V::str(x)); v = mk("idx", "", {v, k}); e = g + 1; } parts.push_back(v); i = e; continue; }
      cur += s[i++]; }
    flush(); if (parts.empty()) return lit(V::str("")); P r = parts[0]; if (parts.size() == 1 && r->k == "lit") return r; r = mk("bin", ".", {lit(V::str("")), r}); for (size_t i = 1; i < parts.size(); i++) r = mk("bin", ".", {r, parts[i]}); return r; }
  std::vector<P> args() { std::vector<P> a; need("("); while (!is(")")) { eat("&"); a.push_back(expr()); if (!eat(",")) break; } need(")"); return a; }
  P arr(const char *end) { P r = mk("array"); while (!is(end)) { P k, v = expr(); if (eat("=>")) { k = v; v = expr(); } r->c.push_back(mk("pair", "", {k, v})); if (!eat(",")) break; } need(end); return r; }
  P member() { if (t().t == Tok::Var) return mk("var", w[p++].s); if (eat("{")) { P e = expr(); need("}"); return e; } if (t().t == Tok::Id) return lit(V::str(w[p++].s)); bad("expected a member"); }
  P primary() { const Tok &x = t();
    switch (x.t) { case Tok::Var: p++; return mk("var", x.s); case Tok::Num: case Tok::Str: p++; return lit(x.v); case Tok::Tpl: p++; return tpl(x.s); case Tok::Op: if (eat("(")) { P e = expr(); need(")"); return e; } if (eat("[")) return arr("]"); bad("unexpected " + x.s); case Tok::End: bad("unexpected end"); case Tok::Id: break; }
    std::string l = lower(x.s); if (l == "true") { p++; return lit(V::b(true)); } if (l == "false") { p++; return lit(V::b(false)); } if (l == "null") { p++; return lit(V()); } if (l == "array" && w[p + 1].s == "(") { p += 2; return arr(")"); }
    if (l == "new") { p++; P c; if (t().t == Tok::Id) c = lit(V::str(w[p++].s)); else { c = eat("(") ? nullptr : mk("var", t().t == Tok::Var ? w[p++].s : (bad("expected a class"), "")); if (!c) { c = expr(); need(")"); } else for (;;) { if (eat("->")) c = mk("prop", "", {c, member()}); else if (eat("[")) { P i = expr(); need("]"); c = mk("idx", "", {c, i}); } else break; } } P r = mk("new", "", {c}); if (is("(")) for (P &a : args()) r->c.push_back(a); return r; }
    if (l == "isset" || l == "empty") { p++; need("("); P r = mk(l); do r->c.push_back(expr()); while (eat(",")); need(")"); return r; }
    if (l == "include" || l == "include_once" || l == "require" || l == "require_once") { p++; return mk("include", l, {expr()}); }
    if (l == "print") { p++; return mk("echo", "", {expr()}); } if (l == "exit" || l == "die") { p++; if (is("(")) args(); return mk("exit"); } if (l == "clone") { p++; return mk("clone", "", {unary()}); } if (l == "list" || l == "function" || l == "fn" || l == "static" || l == "yield") { if (!(l == "static" && w[p + 1].s == "::")) throw Unsupported{l}; }
    p++; if (is("(")) { P r = mk("call", l); r->c = args(); return r; } if (is("::")) return mk("classname", x.s); return mk("const", x.s); }
  P postfix() { P e = primary(); for (;;) {
      if (eat("->")) { P m = member(); if (is("(")) { P r = mk("mcall", "", {e, m}); for (P &a : args()) r->c.push_back(a); e = r; } else e = mk("prop", "", {e, m}); }
      else if (eat("::")) { if (t().t == Tok::Var) { e = mk("sprop", w[p++].s, {e}); } else { std::string n = id(); if (is("(")) { P r = mk("scall", n, {e}); for (P &a : args()) r->c.push_back(a); e = r; } else e = mk("cconst", n, {e}); } }
      else if (eat("[")) { if (eat("]")) e = mk("idx", "", {e}); else { P i = expr(); need("]"); e = mk("idx", "", {e, i}); } }
      else if (is("{") && false) {} else if (eat("++")) e = mk("post", "+", {e}); else if (eat("--")) e = mk("post", "-", {e}); else if (is("(") && e->k != "lit") throw Unsupported{"a call of a value"}; else return e; } }
  P unary() { if (eat("!")) return mk("not", "", {unary()}); if (eat("-")) return mk("bin", "-", {lit(V::n(0)), unary()}); if (eat("+")) return mk("bin", "+", {lit(V::n(0)), unary()}); if (eat("~")) return mk("bits", "", {unary()}); if (eat("@")) return unary(); if (eat("&")) return unary(); if (eat("++")) return mk("pre", "+", {unary()}); if (eat("--")) return mk("pre", "-", {unary()});
    if (is("(") && w[p + 1].t == Tok::Id && w[p + 2].t == Tok::Op && w[p + 2].s == ")") { std::string c = lower(w[p + 1].s); if (c == "int" || c == "integer" || c == "string" || c == "float" || c == "double" || c == "bool" || c == "boolean" || c == "array") { p += 3; return mk("cast", c, {unary()}); } }
    P e = postfix(); static const char *as[] = {"=", "+=", "-=", "*=", "/=", ".=", "%=", "&=", "|=", "^=", "<<=", ">>=", 0}; for (int i = 0; as[i]; i++) if (is(as[i])) { p++; eat("&"); P r = assign(); return mk("set", std::string(as[i]).substr(0, strlen(as[i]) - 1), {e, r}); } if (eatk("instanceof")) { if (t().t == Tok::Id) return mk("inst", "", {e, lit(V::str(w[p++].s))}); return mk("inst", "", {e, postfix()}); } return e; }
  static int prec(const std::string &o) { static const std::map<std::string, int> m = {{"||", 2}, {"&&", 3}, {"|", 4}, {"^", 5}, {"&", 6}, {"==", 7}, {"!=", 7}, {"<>", 7}, {"===", 7}, {"!==", 7}, {"<", 8}, {">", 8}, {"<=", 8}, {">=", 8}, {"<<", 9}, {">>", 9}, {"+", 10}, {"-", 10}, {".", 10}, {"*", 11}, {"/", 11}, {"%", 11}}; auto q = m.find(o); return q == m.end() ? 0 : q->second; }
  P binary(int min) { P l = unary(); for (;;) { if (t().t != Tok::Op) return l; std::string o = t().s; int q = prec(o); if (!q || q < min) return l; p++; P r = binary(q + 1); l = mk(o == "&&" ? "and" : o == "||" ? "or" : "bin", o == "<>" ? "!=" : o, {l, r}); } }
  P assign() { P c = binary(1); while (is("?") || is("??")) { if (eat("??")) { c = mk("coal", "", {c, binary(1)}); continue; } p++; if (eat(":")) { P b = binary(1); c = mk("tern", "", {c, nullptr, b}); } else { P a = assign(); need(":"); P b = binary(1); c = mk("tern", "", {c, a, b}); } } return c; }
  P expr() { P e = assign(); for (;;) { if (eatk("and")) e = mk("and", "", {e, assign()}); else if (eatk("or")) e = mk("or", "", {e, assign()}); else return e; } }
  P block() { if (is("{")) { p++; P b = mk("block"); while (!is("}")) { if (t().t == Tok::End) bad("missing }"); b->c.push_back(stmt()); } p++; return b; } return stmt(); }
  Func func() { Func f; f.name = id(); need("("); while (!is(")")) { Func::Par a{"", nullptr, false}; if (t().t == Tok::Id) p++; if (eat("&")) a.ref = true; if (t().t != Tok::Var) bad("expected a parameter"); a.n = w[p++].s; if (eat("=")) a.def = expr(); f.pars.push_back(a); if (!eat(",")) break; } need(")"); if (eat(";")) return f; if (!is("{")) bad("expected {"); f.body = block(); return f; }
  void klass() { Class c; c.name = id(); if (eatk("extends")) c.parent = id(); if (eatk("implements")) { do id(); while (eat(",")); } std::string key = lower(c.name); if (cls->count(key)) throw Fatal{"class " + c.name + " is declared twice"}; need("{");
    while (!eat("}")) { bool st = false, mod = false; for (;;) { if (eatk("public") || eatk("private") || eatk("protected") || eatk("var") || eatk("final") || eatk("abstract")) mod = true; else if (eatk("static")) st = mod = true; else break; } if (eatk("const")) { do { std::string n = id(); need("="); c.consts[n] = expr(); } while (eat(",")); need(";"); continue; } if (eatk("function")) { eat("&"); Func f = func(); f.stat = st; std::string k = lower(f.name); if (c.m.count(k)) throw Fatal{"method " + c.name + "::" + f.name + " is declared twice"}; c.m[k] = f; continue; } if (!mod || t().t != Tok::Var) bad("unexpected in class " + c.name); do { if (t().t != Tok::Var) bad("expected a property"); std::string n = w[p++].s; P d = eat("=") ? expr() : nullptr; if (st) { if (d && d->k != "lit") throw Unsupported{"static property"}; c.statics[n] = d ? d->v : V(); } else { for (auto &q : c.props) if (q.first == n) throw Fatal{"property " + c.name + "::$" + n + " is declared twice"}; c.props.push_back({n, d}); } } while (eat(",")); need(";"); }
    (*cls)[key] = c; }
  P stmt() { if (is("{")) return block(); if (eat(";")) return mk("block"); if (t().t != Tok::Id) { P e = mk("expr", "", {expr()}); need(";"); return e; } std::string l = lower(t().s);
    if (l == "class" || l == "abstract" || l == "final") { while (!eatk("class")) p++; klass(); return mk("block"); } if (l == "interface") throw Unsupported{l};
    if (l == "function" && w[p + 1].t == Tok::Id) { p++; Func f = func(); if (fun->count(lower(f.name))) throw Fatal{"function " + f.name + " is declared twice"}; (*fun)[lower(f.name)] = f; return mk("block"); }
    if (l == "if") { p++; need("("); P c = expr(); need(")"); if (is(":")) throw Unsupported{"if:"}; P a = block(), b; if (kw("elseif")) { w[p].s = "if"; b = stmt(); } else if (eatk("else")) b = block(); return mk("if", "", {c, a, b}); }
    if (l == "while") { p++; need("("); P c = expr(); need(")"); P b = block(); return mk("for", "", {nullptr, c, nullptr, b}); } if (l == "do") { p++; P b = block(); if (!eatk("while")) bad("expected while"); need("("); P c = expr(); need(")"); need(";"); return mk("do", "", {b, c}); }
    if (l == "for") { p++; need("("); auto list = [&](const char *end) { P r; while (!is(end)) { P e = mk("expr", "", {expr()}); r = r ? mk("block", "", {r, e}) : e; if (!eat(",")) break; } need(end); return r; }; P a = list(";"), c = is(";") ? nullptr : expr(); need(";"); P s = list(")"), b = block(); return mk("for", "", {a, c, s, b}); }
    if (l == "foreach") { p++; need("("); P e = expr(); if (!eatk("as")) bad("expected as"); if (eat("&")) throw Unsupported{"foreach by reference"}; P k, v = postfix(); if (eat("=>")) { k = v; if (eat("&")) throw Unsupported{"foreach by reference"}; v = postfix(); } need(")"); P b = block(); return mk("foreach", "", {e, k, v, b}); }
    if (l == "return") { p++; P e = is(";") ? nullptr : expr(); need(";"); return mk("return", "", {e}); } if (l == "break" || l == "continue") { p++; P r = mk(l); if (t().t == Tok::Num) r->v = w[p++].v; else r->v = V::n(1); need(";"); return r; } if (l == "throw") { p++; P e = expr(); need(";"); return mk("throw", "", {e}); } if (l == "echo") { p++; P r = mk("expr", "", {mk("echo")}); do r->c[0]->c.push_back(expr()); while (eat(",")); need(";"); return r; }
    if (l == "unset") { p++; need("("); P r = mk("unset"); do r->c.push_back(expr()); while (eat(",")); need(")"); need(";"); return r; } if (l == "global") { p++; do p++; while (eat(",")); throw Unsupported{l}; }
    if (l == "switch") { p++; need("("); P r = mk("switch", "", {expr()}); need(")"); need("{"); while (!eat("}")) { P c; if (eatk("default")) ; else if (eatk("case")) c = expr(); else bad("expected case"); if (!eat(":")) need(";"); P b = mk("block"); while (!kw("case") && !kw("default") && !is("}")) b->c.push_back(stmt()); r->c.push_back(mk("case", "", {c, b})); } return r; }
    if (l == "try") { p++; P r = mk("try", "", {block(), nullptr}); while (eatk("catch")) { need("("); std::string n = id(); std::string v = t().t == Tok::Var ? w[p++].s : ""; need(")"); P b = block(); r->c.push_back(mk("catch", n, {b, mk("var", v)})); } if (eatk("finally")) r->c[1] = block(); return r; }
    P e = mk("expr", "", {expr()}); need(";"); return e; } };
// ---- values ----
inline double to_d(const V &v) { switch (v.t) { case V::Null: return 0; case V::Bool: case V::Int: case V::Stream: return (double)v.i; case V::Dbl: return v.d; case V::Str: return strtod(v.s.c_str(), 0); case V::Array: return v.a->e.empty() ? 0 : 1; default: return 1; } }
inline bool intlike(const std::string &s) { size_t i = s.size() && s[0] == '-'; if (i == s.size() || s.size() - i > 19) return false; for (size_t k = i; k < s.size(); k++) if (!isdigit((unsigned char)s[k])) return false; return std::to_string(strtoll(s.c_str(), 0, 10)) == s; }
inline int64_t to_i(const V &v) { switch (v.t) { case V::Dbl: return std::isfinite(v.d) && std::fabs(v.d) < 9.3e18 ? (v.d >= 9223372036854775808.0 || v.d < -9223372036854775808.0 ? (int64_t)(uint64_t)v.d : (int64_t)v.d) : 0; case V::Str: { size_t k = v.s.find_first_of(".eE"); if (k != std::string::npos) { double d = strtod(v.s.c_str(), 0); if (std::fabs(d) < 9e18) return (int64_t)d; } return strtoll(v.s.c_str(), 0, 10); } case V::Array: return !v.a->e.empty(); case V::Null: return 0; case V::Object: return 1; default: return v.i; } }
inline bool to_b(const V &v) { switch (v.t) { case V::Null: return false; case V::Bool: case V::Int: return v.i != 0; case V::Dbl: return v.d != 0; case V::Str: return !(v.s.empty() || v.s == "0"); case V::Array: return !v.a->e.empty(); default: return true; } }
inline std::string to_s(const V &v) { switch (v.t) { case V::Null: return ""; case V::Bool: return v.i ? "1" : ""; case V::Int: return std::to_string(v.i); case V::Dbl: { if (v.d == (double)(int64_t)v.d && std::fabs(v.d) < 1e15) return std::to_string((int64_t)v.d); char b[40]; snprintf(b, 40, "%.14G", v.d); return b; } case V::Str: return v.s; case V::Array: return "Array"; case V::Object: throw Fatal{"an object used as a string"}; default: return "Resource"; } }
inline bool numeric(const std::string &s) { if (s.empty()) return false; const char *b = s.c_str(); char *e; if (isspace((unsigned char)*b)) b++; if (!(isdigit((unsigned char)*b) || *b == '-' || *b == '+' || *b == '.')) return false; if (strchr(b, 'x') || strchr(b, 'X') || strchr(b, 'n') || strchr(b, 'N')) return false; strtod(b, &e); return e == s.c_str() + s.size(); }
inline Key key(const V &v) { if (v.t == V::Str) { if (intlike(v.s)) return Key{true, strtoll(v.s.c_str(), 0, 10), ""}; return Key{false, 0, v.s}; } if (v.t == V::Null) return Key{false, 0, ""}; if (v.t == V::Array || v.t == V::Object) throw Fatal{"illegal offset type"}; return Key{true, to_i(v), ""}; }
inline V unkey(const Key &k) { return k.num ? V::n(k.i) : V::str(k.s); }
inline bool same(const V &a, const V &b) { if (a.t != b.t) return false; switch (a.t) { case V::Null: return true; case V::Dbl: return a.d == b.d; case V::Str: return a.s == b.s; case V::Array: { if (a.a->e.size() != b.a->e.size()) return false; for (size_t i = 0; i < a.a->e.size(); i++) { auto &x = a.a->e[i], &y = b.a->e[i]; if (x.first < y.first || y.first < x.first || !same(x.second, y.second)) return false; } return true; } case V::Object: return a.o == b.o; default: return a.i == b.i; } }
inline int cmp(const V &a, const V &b) { auto num = [](double x, double y) { return x < y ? -1 : x > y ? 1 : x == y ? 0 : 1; }; if (a.t == V::Str && b.t == V::Str) { if (numeric(a.s) && numeric(b.s)) return num(to_d(a), to_d(b)); int c = a.s.compare(b.s); return c < 0 ? -1 : c > 0; } if (a.t == V::Bool || b.t == V::Bool || a.t == V::Null || b.t == V::Null) { if (a.t == V::Null && b.t == V::Str) return b.s.empty() ? 0 : -1; if (b.t == V::Null && a.t == V::Str) return a.s.empty() ? 0 : 1; return (int)to_b(a) - (int)to_b(b); } if (a.t == V::Array || b.t == V::Array || a.t == V::Object || b.t == V::Object) throw Unsupported{"comparison of arrays or objects"}; if (a.t == V::Int && b.t == V::Int) return a.i < b.i ? -1 : a.i > b.i; return num(to_d(a), to_d(b)); }
// ---- running ----
struct Interp { std::map<std::string, Class> cls; std::map<std::string, Func> fun; std::set<std::string> included; std::string out; const Interp *library = nullptr; size_t steps = 0, max_steps = 50000000;
  std::function<std::string(const std::string &)> file; std::function<V(const std::string &, int64_t)> open; std::function<std::string(int64_t, size_t)> read; std::function<void(int64_t, const std::string &)> write;   // the outside
  struct Env { std::map<std::string, V> v; V self; Class *c = nullptr; V ret; }; enum Flow { Next, Break, Continue, Return }; int depth = 0, level = 0;
  Interp() { Class e; e.name = "Exception"; e.props = {{"message", nullptr}, {"code", nullptr}}; cls["exception"] = e; }
  void run(const std::string &code) { Parser q; q.w = words(code); q.cls = &cls; q.fun = &fun; P b = Parser::mk("block"); while (q.t().t != Tok::End) b->c.push_back(q.stmt()); Env e; exec(b, e); }
  Class &klass(const std::string &n, Env *e = nullptr) { std::string l = lower(n); if (e && e->c && (l == "self" || l == "static")) return *e->c; if (e && e->c && l == "parent") return klass(e->c->parent); if (l == "runtimeexception" || l == "logicexception" || l == "errorexception") l = "exception"; auto p = cls.find(l); if (p == cls.end()) throw Fatal{"class " + n + " not found"}; return p->second; }
  bool isa(Class *c, const std::string &n) { for (;;) { if (lower(c->name) == lower(n)) return true; if (c->parent.empty()) return false; c = &klass(c->parent); } }
  Func *method(Class &c, const std::string &n, Class **in) { Class *k = &c; for (;;) { auto p = k->m.find(lower(n)); if (p != k->m.end()) { *in = k; return &p->second; } if (k->parent.empty()) return nullptr; k = &klass(k->parent); } }
  V invoke(Func &f, std::vector<V> a, const V &self, Class *c) { if (++depth > 200) throw Fatal{"calls nested too deeply in " + f.name}; struct D { int &d; ~D() { d--; } } dd{depth}; Env e; e.self = self; e.c = c; for (size_t i = 0; i < f.pars.size(); i++) { if (f.pars[i].ref) throw Unsupported{"parameters by reference"}; if (i < a.size()) e.v[f.pars[i].n] = a[i]; else if (f.pars[i].def) e.v[f.pars[i].n] = eval(f.pars[i].def, e); else throw Fatal{"argument " + std::to_string(i + 1) + " of " + f.name + " is missing"}; } if (!f.body) throw Fatal{f.name + " has no body"}; exec(f.body, e); return e.ret; }
  V make(Class &c, std::vector<V> a) { V v; v.t = V::Object; v.o = std::make_shared<Obj>(); v.o->c = &c; std::vector<Class *> ch; for (Class *k = &c;; k = &klass(k->parent)) { ch.insert(ch.begin(), k); if (k->parent.empty()) break; } Env e; for (Class *k : ch) for (auto &p : k->props) v.o->get(p.first) = p.second ? eval(p.second, e) : V(); Class *in; if (Func *f = method(c, "__construct", &in)) invoke(*f, a, v, in); else if (Func *g = method(c, c.name, &in)) invoke(*g, a, v, in); else if (isa(&c, "Exception")) { if (a.size()) v.o->get("message") = a[0]; if (a.size() > 1) v.o->get("code") = a[1]; } return v; }
  V call(const V &o, const std::string &n, std::vector<V> a) { if (o.t != V::Object) throw Fatal{"a call of " + n + "() on something that is no object"}; Class *in; if (Func *f = method(*o.o->c, n, &in)) return invoke(*f, a, f->stat ? V() : o, in); if (isa(o.o->c, "Exception") && lower(n) == "getmessage") return o.o->get("message"); if (isa(o.o->c, "Exception") && lower(n) == "getcode") return o.o->get("code"); throw Fatal{"method " + o.o->c->name + "::" + n + " does not exist"}; }
  std::string prop_name(const P &n, Env &e) { return to_s(eval(n, e)); }
  V &ref(const P &n, Env &e) { if (n->h == H("var")) { if (n->s == "this") { if (e.self.t != V::Object) throw Fatal{"$this outside of an object"}; return e.self; } return e.v[n->s]; }
    if (n->h == H("prop")) { V o = n->c[0]->h == H("var") || n->c[0]->h == H("prop") || n->c[0]->h == H("idx") ? ref(n->c[0], e) : eval(n->c[0], e); if (o.t != V::Object) throw Fatal{"a property of something that is no object"}; return o.o->get(prop_name(n->c[1], e)); }
    if (n->h == H("idx")) { V &b = ref(n->c[0], e); if (b.t == V::Null || (b.t == V::Str && b.s.empty())) b = V::arr(); if (b.t != V::Array) throw Unsupported{"an element of a scalar"}; if (b.a.use_count() > 1) b.a = std::make_shared<Arr>(*b.a); if (n->c.size() == 1) return b.a->push(); Key k = key(eval(n->c[1], e)); V &bb = ref(n->c[0], e); if (bb.a.use_count() > 1) bb.a = std::make_shared<Arr>(*bb.a); return bb.a->get(k); }
    if (n->h == H("sprop")) { Class *k = &klass(n->c[0]->s, &e); for (;;) { auto q = k->statics.find(n->s); if (q != k->statics.end()) return q->second; if (k->parent.empty()) throw Fatal{"static property " + n->s + " does not exist"}; k = &klass(k->parent); } }
    throw Fatal{"not assignable: " + n->k}; }
  static V arith(const std::string &o, const V &a, const V &b) { const uint32_t q = H(o.c_str());
    if (q == H(".")) return V::str(to_s(a) + to_s(b)); if (q == H("===")) return V::b(same(a, b)); if (q == H("!==")) return V::b(!same(a, b)); if (q == H("==")) return V::b(a.t == V::Array && b.t == V::Array ? same(a, b) : a.t == V::Object && b.t == V::Object ? a.o == b.o : cmp(a, b) == 0); if (q == H("!=")) return V::b(!arith("==", a, b).i); if (q == H("<")) return V::b(cmp(a, b) < 0); if (q == H(">")) return V::b(cmp(b, a) < 0); if (q == H("<=")) return V::b(cmp(a, b) <= 0); if (q == H(">=")) return V::b(cmp(b, a) <= 0);
    if (a.t == V::Array || b.t == V::Array) throw Fatal{"unsupported operand types"};
    if (q == H("&") || q == H("|") || q == H("^")) { if (a.t == V::Str && b.t == V::Str) throw Unsupported{"bit operation on strings"}; int64_t x = to_i(a), y = to_i(b); return V::n(q == H("&") ? x & y : q == H("|") ? x | y : x ^ y); } if (q == H("<<")) { uint64_t s = (uint64_t)to_i(b); return V::n(s > 63 ? 0 : (int64_t)((uint64_t)to_i(a) << s)); } if (q == H(">>")) { uint64_t s = (uint64_t)to_i(b); return V::n(to_i(a) >> (s > 63 ? 63 : s)); } if (q == H("%")) { int64_t y = to_i(b); if (!y) throw Fatal{"division by zero"}; return V::n(y == -1 ? 0 : to_i(a) % y); }
    auto whole = [](const V &v) { return v.t == V::Int || v.t == V::Null || v.t == V::Bool || (v.t == V::Str && (intlike(v.s) || !numeric(v.s))); }; if (q != H("/") && whole(a) && whole(b)) { int64_t x = to_i(a), y = to_i(b), r; bool over = q == H("+") ? __builtin_add_overflow(x, y, &r) : q == H("-") ? __builtin_sub_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r); if (!over) return V::n(r); }
    double x = to_d(a), y = to_d(b); if (q == H("+")) return V::f(x + y); if (q == H("-")) return V::f(x - y); if (q == H("*")) return V::f(x * y); if (q == H("/")) { if (y == 0) throw Fatal{"division by zero"}; if (whole(a) && whole(b) && to_i(a) % to_i(b) == 0) return V::n(to_i(a) / to_i(b)); return V::f(x / y); } throw Unsupported{o}; }
  V eval(const P &n, Env &e) { if (++steps > max_steps) throw Fatal{"runs without end"}; const uint32_t k = n->h;
    if (k == H("lit")) return n->v; if (k == H("var")) { if (n->s == "this") return e.self; auto p = e.v.find(n->s); return p == e.v.end() ? V() : p->second; }
    if (k == H("prop")) { V o = eval(n->c[0], e); if (o.t != V::Object) return V(); V *p = o.o->find(prop_name(n->c[1], e)); return p ? *p : V(); }
    if (k == H("idx")) { if (n->c.size() < 2) throw Fatal{"cannot use [] for reading"}; V b = eval(n->c[0], e), i = eval(n->c[1], e); if (b.t == V::Array) { V *p = b.a->find(key(i)); return p ? *p : V(); } if (b.t == V::Str) { int64_t q = to_i(i); if (q < 0) q += (int64_t)b.s.size(); return q < 0 || (size_t)q >= b.s.size() ? V::str("") : V::str(b.s.substr((size_t)q, 1)); } return V(); }
    if (k == H("set")) { if (n->s.empty()) { V v = eval(n->c[1], e); ref(n->c[0], e) = v; return v; } V old = eval(n->c[0], e), v = arith(n->s, old, eval(n->c[1], e)); ref(n->c[0], e) = v; return v; }
    if (k == H("bin")) { V a = eval(n->c[0], e), b = eval(n->c[1], e); return arith(n->s, a, b); } if (k == H("and")) return V::b(to_b(eval(n->c[0], e)) && to_b(eval(n->c[1], e))); if (k == H("or")) return V::b(to_b(eval(n->c[0], e)) || to_b(eval(n->c[1], e))); if (k == H("not")) return V::b(!to_b(eval(n->c[0], e))); if (k == H("bits")) return V::n(~to_i(eval(n->c[0], e)));
    if (k == H("tern")) { V c = eval(n->c[0], e); return to_b(c) ? (n->c[1] ? eval(n->c[1], e) : c) : eval(n->c[2], e); } if (k == H("coal")) { V c = eval(n->c[0], e); return c.t == V::Null ? eval(n->c[1], e) : c; }
    if (k == H("pre") || k == H("post")) { V &r = ref(n->c[0], e); V old = r; r = arith(n->s, old, V::n(1)); return k == H("pre") ? r : old; }
    if (k == H("array")) { V v = V::arr(); for (auto &x : n->c) { if (x->c[0]) { Key q = key(eval(x->c[0], e)); V y = eval(x->c[1], e); v.a->get(q) = y; } else { V y = eval(x->c[1], e); v.a->push() = y; } } return v; }
    if (k == H("new")) { V c = eval(n->c[0], e); std::vector<V> a; for (size_t i = 1; i < n->c.size(); i++) a.push_back(eval(n->c[i], e)); if (c.t == V::Object) return make(*c.o->c, a); return make(klass(to_s(c), &e), a); }
    if (k == H("mcall")) { V o = eval(n->c[0], e); std::string m = prop_name(n->c[1], e); std::vector<V> a; for (size_t i = 2; i < n->c.size(); i++) a.push_back(eval(n->c[i], e)); return call(o, m, a); }
    if (k == H("scall")) { Class &c = n->c[0]->h == H("classname") ? klass(n->c[0]->s, &e) : klass(to_s(eval(n->c[0], e)), &e); std::vector<V> a; for (size_t i = 1; i < n->c.size(); i++) a.push_back(eval(n->c[i], e)); Class *in; Func *f = method(c, n->s, &in); if (!f) { if (isa(&c, "Exception") && lower(n->s) == "__construct") { if (a.size()) e.self.o->get("message") = a[0]; return V(); } throw Fatal{"method " + c.name + "::" + n->s + " does not exist"}; } return invoke(*f, a, f->stat ? V() : e.self.t == V::Object && isa(e.self.o->c, c.name) ? e.self : V(), in); }
    if (k == H("sprop")) return ref(n, e); if (k == H("cconst")) { Class *c = &klass(n->c[0]->s, &e); if (n->s == "class") return V::str(c->name); for (;;) { auto q = c->consts.find(n->s); if (q != c->consts.end()) return eval(q->second, e); if (c->parent.empty()) throw Fatal{"constant " + n->s + " does not exist"}; c = &klass(c->parent); } }
    if (k == H("inst")) { V o = eval(n->c[0], e); return V::b(o.t == V::Object && isa(o.o->c, to_s(eval(n->c[1], e)))); } if (k == H("clone")) { V o = eval(n->c[0], e); if (o.t == V::Object) o.o = std::make_shared<Obj>(*o.o); return o; }
    if (k == H("cast")) { V v = eval(n->c[0], e); if (n->s[0] == 'i') return V::n(to_i(v)); if (n->s[0] == 's') return V::str(to_s(v)); if (n->s[0] == 'f' || n->s[0] == 'd') return V::f(to_d(v)); if (n->s[0] == 'b') return V::b(to_b(v)); if (v.t == V::Array) return v; V r = V::arr(); if (v.t == V::Object) for (auto &x : v.o->p) r.a->get(key(V::str(x.first))) = x.second; else if (v.t != V::Null) r.a->push() = v; return r; }
    if (k == H("isset")) { for (auto &x : n->c) if (eval(x, e).t == V::Null) return V::b(false); return V::b(true); } if (k == H("empty")) return V::b(!to_b(eval(n->c[0], e)));
    if (k == H("include")) { std::string f = to_s(eval(n->c[0], e)); size_t s = f.rfind('/'); if (s != std::string::npos) f = f.substr(s + 1); if (n->s.find("once") != std::string::npos && !included.insert(f).second) return V::b(true); if (library && f == "pfi_rpc.php") { for (auto &x : library->cls) if (!cls.insert(x).second && x.first != "exception") throw Fatal{"class " + x.first + " is declared twice"}; for (auto &x : library->fun) fun.insert(x); return V::n(1); } run(file(f)); return V::n(1); }
    if (k == H("echo")) { for (auto &x : n->c) out += to_s(eval(x, e)); return V::n(1); } if (k == H("exit")) throw Fatal{"the program ends itself"};
    if (k == H("const")) { std::string c = lower(n->s); if (c == "php_eol") return V::str("\n"); if (c == "php_int_max") return V::n(INT64_MAX); if (c == "php_int_size") return V::n(8); throw Unsupported{"constant " + n->s}; }
    if (k == H("call")) return builtin(n, e); throw Unsupported{n->k}; }
  V builtin(const P &n, Env &e) { std::string f = n->s; if (f[0] == '\\') f.erase(0, 1); const uint32_t g = H(f.c_str()); std::vector<V> a; for (auto &x : n->c) a.push_back(eval(x, e)); auto q = fun.find(f); if (q != fun.end()) return invoke(q->second, a, V(), nullptr); auto S = [&](size_t i) { return i < a.size() ? to_s(a[i]) : std::string(); }; auto I = [&](size_t i) { return i < a.size() ? to_i(a[i]) : 0; };
    if (g == H("strlen")) { if (a.size() && a[0].t == V::Array) return V(); return V::n((int64_t)S(0).size()); } if (g == H("count") || g == H("sizeof")) return V::n(a.empty() || a[0].t == V::Null ? 0 : a[0].t == V::Array ? (int64_t)a[0].a->e.size() : 1);
    if (g == H("substr")) { std::string s = S(0); int64_t b = I(1), z = (int64_t)s.size(), l = a.size() > 2 && a[2].t != V::Null ? I(2) : z; if (b < 0) b = std::max<int64_t>(0, z + b); if (b >= z) return V::str(""); if (l < 0) l = std::max<int64_t>(0, z - b + l); return V::str(s.substr((size_t)b, (size_t)l)); }
    if (g == H("pack")) { std::string fmt = S(0), r; size_t at = 1; for (size_t i = 0; i < fmt.size(); i++) { char c = fmt[i]; int64_t rep = 1; bool star = false; if (i + 1 < fmt.size() && fmt[i + 1] == '*') { star = true; i++; } else if (i + 1 < fmt.size() && isdigit((unsigned char)fmt[i + 1])) { rep = 0; while (i + 1 < fmt.size() && isdigit((unsigned char)fmt[i + 1])) rep = rep * 10 + (fmt[++i] - '0'); } if (c == 'a' || c == 'A') { std::string s = S(at++); if (star) rep = (int64_t)s.size(); s.resize((size_t)rep, c == 'a' ? '\0' : ' '); r += s; continue; } if (star) rep = (int64_t)(a.size() - std::min(at, a.size())); for (int64_t j = 0; j < rep; j++) { if (at >= a.size()) throw Fatal{"pack: not enough arguments"}; const V &v = a[at++]; uint64_t u = (uint64_t)to_i(v); auto le = [&](int w) { for (int b = 0; b < w; b++) r += (char)(u >> (8 * b)); }; auto be = [&](int w) { for (int b = w; b-- > 0;) r += (char)(u >> (8 * b)); }; switch (c) { case 'c': case 'C': le(1); break; case 's': case 'S': case 'v': le(2); break; case 'l': case 'L': case 'V': case 'i': case 'I': le(4); break; case 'q': case 'Q': case 'P': le(8); break; case 'n': be(2); break; case 'N': be(4); break; case 'J': be(8); break; case 'd': case 'e': { double d = to_d(v); memcpy(&u, &d, 8); le(8); break; } case 'f': case 'g': { float d = (float)to_d(v); uint32_t w; memcpy(&w, &d, 4); u = w; le(4); break; } default: throw Unsupported{"pack " + fmt}; } } } return V::str(r); }
    if (g == H("unpack")) { std::string fmt = S(0), d = S(1); size_t p = 0; V r = V::arr(); size_t i = 0; while (i <= fmt.size()) { size_t e2 = fmt.find('/', i); if (e2 == std::string::npos) e2 = fmt.size(); std::string x = fmt.substr(i, e2 - i); i = e2 + 1; if (x.empty()) break; char c = x[0]; size_t j = 1; int64_t rep = 1; bool many = false; if (j < x.size() && x[j] == '*') { rep = INT64_MAX; many = true; j++; } else if (j < x.size() && isdigit((unsigned char)x[j])) { rep = 0; many = true; while (j < x.size() && isdigit((unsigned char)x[j])) rep = rep * 10 + (x[j++] - '0'); } std::string name = x.substr(j); if (c == 'a' || c == 'A') { size_t l = many ? std::min<size_t>((size_t)rep, d.size() - p) : 1; r.a->get(key(V::str(name.empty() ? "1" : name))) = V::str(d.substr(p, l)); p += l; continue; } int w = strchr("cC", c) ? 1 : strchr("sSvn", c) ? 2 : strchr("lLVNiIfg", c) ? 4 : strchr("qQPJde", c) ? 8 : 0; if (!w) throw Unsupported{"unpack " + fmt};
        for (int64_t z = 0; z < rep; z++) { if (d.size() - p < (size_t)w) { if (rep == INT64_MAX) break; return V::b(false); } uint64_t u = 0; if (strchr("nNJ", c)) for (int b = 0; b < w; b++) u = u << 8 | (unsigned char)d[p + (size_t)b]; else for (int b = w; b-- > 0;) u = u << 8 | (unsigned char)d[p + (size_t)b]; p += (size_t)w; V v; if (c == 'd' || c == 'e') { double y; memcpy(&y, &u, 8); v = V::f(y); } else if (c == 'f' || c == 'g') { uint32_t y = (uint32_t)u; float fl; memcpy(&fl, &y, 4); v = V::f(fl); } else { int64_t y = (int64_t)u; if (strchr("csli", c)) { int sh = 64 - 8 * w; y = (int64_t)(u << sh) >> sh; } v = V::n(y); } std::string nm = name.empty() ? std::to_string(z + 1) : many ? name + std::to_string(z + 1) : name; r.a->get(key(V::str(nm))) = v; } } return r; }
    if (g == H("fsockopen") || g == H("pfsockopen")) return open(S(0), I(1)); if (g == H("fread")) { if (a.size() < 2 || a[0].t != V::Stream) throw Fatal{"fread of something that is no stream"}; if (I(1) <= 0) return V::b(false); return V::str(read(a[0].i, (size_t)I(1))); } if (g == H("fwrite") || g == H("fputs")) { if (a.size() < 2 || a[0].t != V::Stream) throw Fatal{"fwrite to something that is no stream"}; std::string s = S(1); if (a.size() > 2 && (size_t)std::max<int64_t>(0, I(2)) < s.size()) s.resize((size_t)std::max<int64_t>(0, I(2))); write(a[0].i, s); return V::n((int64_t)s.size()); } if (g == H("fflush") || g == H("fclose") || g == H("feof") || g == H("stream_set_timeout") || g == H("stream_set_blocking") || g == H("stream_set_write_buffer")) return V::b(g != H("feof"));
    if (g == H("ord")) { std::string s = S(0); return V::n(s.empty() ? 0 : (unsigned char)s[0]); } if (g == H("chr")) return V::str(std::string(1, (char)I(0))); if (g == H("intval")) return V::n(I(0)); if (g == H("floatval") || g == H("doubleval")) return V::f(a.empty() ? 0 : to_d(a[0])); if (g == H("strval")) return V::str(S(0)); if (g == H("boolval")) return V::b(a.size() && to_b(a[0])); if (g == H("str_repeat")) { std::string r; for (int64_t i = 0; i < I(1); i++) r += S(0); return V::str(r); } if (g == H("strtolower")) return V::str(lower(S(0))); if (g == H("strrev")) { std::string s = S(0); return V::str(std::string(s.rbegin(), s.rend())); }
    if (g == H("is_array")) return V::b(a.size() && a[0].t == V::Array); if (g == H("is_null")) return V::b(a.empty() || a[0].t == V::Null); if (g == H("is_string")) return V::b(a.size() && a[0].t == V::Str); if (g == H("is_int") || g == H("is_integer") || g == H("is_long")) return V::b(a.size() && a[0].t == V::Int); if (g == H("is_float") || g == H("is_double")) return V::b(a.size() && a[0].t == V::Dbl); if (g == H("is_bool")) return V::b(a.size() && a[0].t == V::Bool); if (g == H("is_object")) return V::b(a.size() && a[0].t == V::Object); if (g == H("is_resource")) return V::b(a.size() && a[0].t == V::Stream); if (g == H("is_numeric")) return V::b(a.size() && (a[0].t == V::Int || a[0].t == V::Dbl || (a[0].t == V::Str && numeric(a[0].s))));
    if (g == H("array_key_exists")) return V::b(a[1].t == V::Array && a[1].a->find(key(a[0]))); if (g == H("array_keys") || g == H("array_values")) { V r = V::arr(); for (auto &x : a[0].a->e) r.a->push() = g == H("array_keys") ? unkey(x.first) : x.second; return r; } if (g == H("abs")) return a[0].t == V::Dbl ? V::f(std::fabs(a[0].d)) : V::n(std::llabs(I(0))); if (g == H("floor")) return V::f(std::floor(to_d(a[0]))); if (g == H("min") || g == H("max")) { V r = a[0]; for (auto &x : a) if (g == H("min") ? cmp(x, r) < 0 : cmp(r, x) < 0) r = x; return r; } if (g == H("class_exists")) return V::b(cls.count(lower(S(0)))); if (g == H("method_exists")) { Class *in; return V::b(a[0].t == V::Object && method(*a[0].o->c, S(1), &in)); } if (g == H("property_exists")) return V::b(a[0].t == V::Object && a[0].o->find(S(1))); if (g == H("get_class")) return a.size() && a[0].t == V::Object ? V::str(a[0].o->c->name) : V::b(false); if (g == H("implode") || g == H("join")) { std::string r; bool first = true; for (auto &x : a[1].a->e) { if (!first) r += S(0); first = false; r += to_s(x.second); } return V::str(r); } if (g == H("strcmp")) { int c = S(0).compare(S(1)); return V::n(c < 0 ? -1 : c > 0); } if (g == H("error_reporting") || g == H("ini_set") || g == H("set_time_limit")) return V();
    throw Unsupported{"function " + f}; }
  Flow exec(const P &n, Env &e) { if (!n) return Next; if (++steps > max_steps) throw Fatal{"runs without end"}; const uint32_t k = n->h;
    if (k == H("block")) { for (auto &x : n->c) { Flow f = exec(x, e); if (f != Next) return f; } return Next; } if (k == H("expr")) { eval(n->c[0], e); return Next; } if (k == H("if")) { if (to_b(eval(n->c[0], e))) return exec(n->c[1], e); return exec(n->c[2], e); } if (k == H("return")) { e.ret = n->c[0] ? eval(n->c[0], e) : V(); return Return; } if (k == H("break")) { level = (int)n->v.i; return Break; } if (k == H("continue")) { level = (int)n->v.i; return Continue; }
    auto loop = [&](Flow f, bool &leave) { leave = false; if (f == Return) { leave = true; return Return; } if (f == Break || f == Continue) { if (level > 1) { level--; leave = true; return f; } if (f == Break) leave = true; } return Next; }; bool leave;
    if (k == H("for")) { exec(n->c[0], e); while (!n->c[1] || to_b(eval(n->c[1], e))) { Flow f = loop(exec(n->c[3], e), leave); if (leave) return f; exec(n->c[2], e); } return Next; } if (k == H("do")) { do { Flow f = loop(exec(n->c[0], e), leave); if (leave) return f; } while (to_b(eval(n->c[1], e))); return Next; }
    if (k == H("foreach")) { V v = eval(n->c[0], e); std::vector<std::pair<V, V>> it; if (v.t == V::Array) for (auto &x : v.a->e) it.push_back({unkey(x.first), x.second}); else if (v.t == V::Object) for (auto &x : v.o->p) it.push_back({V::str(x.first), x.second}); for (auto &x : it) { if (n->c[1]) ref(n->c[1], e) = x.first; ref(n->c[2], e) = x.second; Flow f = loop(exec(n->c[3], e), leave); if (leave) return f; } return Next; }
    if (k == H("switch")) { V v = eval(n->c[0], e); size_t at = 0; for (size_t i = 1; i < n->c.size() && !at; i++) if (n->c[i]->c[0] && to_b(arith("==", v, eval(n->c[i]->c[0], e)))) at = i; for (size_t i = 1; i < n->c.size() && !at; i++) if (!n->c[i]->c[0]) at = i; if (at) for (; at < n->c.size(); at++) { Flow f = loop(exec(n->c[at]->c[1], e), leave); if (leave) return f; } return Next; }
    if (k == H("throw")) throw Thrown{eval(n->c[0], e)};
    if (k == H("try")) { Flow f = Next; try { f = exec(n->c[0], e); } catch (Thrown &t) { bool hit = false; for (size_t i = 2; i < n->c.size() && !hit; i++) if (t.v.t == V::Object && isa(t.v.o->c, n->c[i]->s)) { hit = true; if (!n->c[i]->c[1]->s.empty()) e.v[n->c[i]->c[1]->s] = t.v; f = exec(n->c[i]->c[0], e); } if (!hit) { exec(n->c[1], e); throw; } } exec(n->c[1], e); return f; }
    if (k == H("unset")) { for (auto &x : n->c) { if (x->h == H("var")) e.v.erase(x->s); else if (x->h == H("idx") && x->c.size() == 2) { V &b = ref(x->c[0], e); Key q = key(eval(x->c[1], e)); if (b.t == V::Array) { if (b.a.use_count() > 1) b.a = std::make_shared<Arr>(*b.a); b.a->erase(q); } } else throw Unsupported{"unset"}; } return Next; }
    throw Unsupported{n->k}; } };
}  // namespace php
