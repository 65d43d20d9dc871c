#include "jmodel.h"
using namespace pbt;
namespace js = pfi::text::json;
enum Res { Value, Parse, End };
// Parses one document; any other exception is a failure.
static Res run(const std::string &t, PJ &j) {
  std::istringstream is(t);
  try { js::json_parser p(is); j = p.parse(); return Value; }
  catch (const pfi::lang::end_of_data &) { return End; }
  catch (const pfi::lang::parse_error &) { return Parse; }
  catch (const std::exception &e) { FAIL("neither a value, a parse error nor end of data but: " << e.what() << " for " << show(t)); }
}
static std::string text(const JV &v, Src &s, bool top = true) {
  switch (v.k) {
    case JV::Float: { char b[40]; snprintf(b, sizeof b, "%.*e", (int)s.choose(8) + 1, v.d); return b; }
    case JV::Arr: { std::string r = "["; for (size_t i = 0; i < v.a.size(); i++) r += (i ? ", " : "") + text(v.a[i], s, false); return r + "]"; }
    case JV::Obj: { std::string r = "{"; bool f = true; for (auto &x : v.o) { r += (f ? "" : ",") + text(JV::of(x.first), s, false) + ":" + text(x.second, s, false); f = false; } return r + "}"; }
    case JV::Str: { std::string r = "\""; char b[8]; for (unsigned char ch : v.s) if (ch < 0x20) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; } else { if (ch == '"' || ch == '\\') r += '\\'; r += (char)ch; } return r + "\""; }
    default: return v.str();
  }
}
static JV sane(Src &s, int d) { JV v = jgen(s, d); std::function<void(JV &)> f = [&](JV &x) { if (x.k == JV::Float && (std::fabs(x.d) > 1e300 || (x.d != 0 && std::fabs(x.d) < 1e-300))) x.d = 1.5; for (auto &y : x.a) f(y); for (auto &y : x.o) f(y.second); }; f(v); return v; }

// every proper prefix of a container, string or literal is refused
static void truncated(Src &s, Ctx &c) {
  JV v = sane(s, 3); if (v.k == JV::Int || v.k == JV::Float) { JV a = JV::arr(); a.a.push_back(v); v = a; }
  std::string t = text(v, s); size_t at = s.choose(t.size()); c.nt(at > 0);
  std::string cut = t.substr(0, at); NOTE("prefix " << show(cut) << " of " << show(t));
  PJ j; Res r = run(cut, j);
  CHECK(r != Value, "accepted a cut text as " << from_pfi(j).str());
  if (cut.find_first_not_of(" \t\r\n") == std::string::npos) CHECK(r == End, "empty text is not reported as end of data");
}
// structural damage to a valid text: one token-level mutation that leaves the grammar
static void damaged(Src &s, Ctx &c) {
  JV v = sane(s, 3); std::string t = text(v, s), orig = t, what;
  switch (s.choose(9)) {
    case 0: { std::vector<size_t> ps; for (size_t i = 0; i < t.size(); i++) if (strchr("[]{}:,\"", t[i])) ps.push_back(i); if (ps.empty()) return; size_t p = s.pick(ps); t.erase(p, 1); what = "deleted a structural character"; break; }
    case 1: { std::vector<size_t> ps; for (size_t i = 0; i < t.size(); i++) if (strchr("[]{}:,\"", t[i])) ps.push_back(i); if (ps.empty()) return; size_t p = s.pick(ps); t[p] = "[]{}:,\""[s.choose(7)]; what = "replaced a structural character"; break; }
    case 2: { size_t p = s.choose(t.size() + 1); t.insert(p, 1, "[]{}:,\"\\"[s.choose(8)]); what = "inserted a structural character"; break; }
    case 3: { static const char *lits[] = {"tru", "truE", "fals", "nul", "True", "NULL", "nan", "inf", "undefined", "+1", ".5", "-", "1e", "1e+", "-e1", "1.e1", "1.", "'a'", "-a", "--1", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1e999", "-1e999"};
              std::string l = lits[s.choose(25)]; t = s.coin() ? l : s.coin() ? "[" + l + "]" : "{\"a\":" + l + "}"; what = "bad literal"; break; }
    case 4: { static const char *es[] = {"\\x41", "\\", "\\u12", "\\u12g4", "\\ud800", "\\udc00", "\\ud800x", "\\ud800\\n", "\\ud800\\u0041", "\\uD83D\\uD83D", "\\'", "\\0", "\\ "}; std::string e = es[s.choose(13)]; if (s.coin()) { auto u4 = [&](uint32_t u) { char b[8]; snprintf(b, sizeof b, "\\u%04x", u); return std::string(b); }; uint32_t lo = s.pick<uint32_t>({0xdbff, 0xd800, 0xe000, 0xe001, 0, 0x20, 0xffff, 0xdc00 - (uint32_t)s.choose(0x400) - 1, 0xe000 + (uint32_t)s.choose(0x2000)}), hi = 0xd800 + (uint32_t)s.choose(0x400); e = s.coin(1, 4) ? u4(0xdc00 + (uint32_t)(s.coin() ? s.choose(0x400) : s.choose(2) * 0x3ff)) + (s.coin() ? u4(0xd800 + (uint32_t)s.choose(0x800)) : "") : u4(hi) + u4(lo); } t = std::string("\"ab") + e + "\""; if (s.coin()) t = "[" + t + "]"; what = "bad escape"; break; }
    case 5: { t = "\"a"; t += (char)s.choose(0x20); t += "b\""; if (s.coin()) t = "{" + t + ":1}"; what = "raw control character in a string"; break; }
    case 6: { std::vector<size_t> ps; for (size_t i = 0; i < t.size(); i++) if (t[i] == ',') ps.push_back(i); if (ps.empty()) { t = s.pick<const char *>({"[1 2]", "[1,,2]", "[,1]", "[1,]", "{\"a\":1,}", "{,}", "{\"a\" 1}", "{\"a\",1}", "{1:2}", "[1:2]", "{\"a\":}", "{a:1}", "{\"a\":1 \"b\":2}", "{\"a\"}", "[}", "{]", "]", "}", ":", ","}); } else t.insert(s.pick(ps), ","); what = "comma damage"; break; }
    case 7: { size_t p = s.choose(t.size()); t[p] = (char)s.choose(256); what = "replaced a byte"; break; }
    default: { size_t a = s.choose(t.size()), n = 1 + s.choose(4); if (s.coin()) t.erase(a, n); else t.insert(a, t.substr(s.choose(t.size()), n)); what = "removed or copied a span"; }
  }
  NOTE(what << ": " << show(t)); c.label(what.c_str());
  // is it malformed by the grammar?  (a first document followed by other text counts as well formed here)
  JV ref; bool ok = true; std::string why;
  try { JReader r(t); r.lenient_zero = true; ref = r.value(); if (r.underflow) { c.label("float underflow"); PJ j; run(t, j); return; } } catch (JErr &e) { ok = false; why = e.why; }
  PJ j; Res r = run(t, j);
  if (ok) { CHECK(r == Value, "a well-formed document is refused: " << show(t)); CHECK(from_pfi(j) == ref, "parsed as " << from_pfi(j).str() << ", the grammar says " << ref.str()); return; }
  c.nt();
  if (r == Value) {
    // tolerated extensions: white space beyond RFC (\v \f), replaced malformed UTF-8
    if (t.find_first_of("\v\f") != std::string::npos || why == "bad UTF-8") { c.label("tolerated extension"); return; }
    FAIL("malformed text (" << why << ") accepted as " << from_pfi(j).str() << ": " << show(t));
  }
}
// the error names the line and character of the first character that cannot be there
static void tokens(const JV &v, Src &s, std::vector<std::string> &o) {
  if (v.k == JV::Arr) { o.push_back("["); for (size_t i = 0; i < v.a.size(); i++) { if (i) o.push_back(","); tokens(v.a[i], s, o); } o.push_back("]"); }
  else if (v.k == JV::Obj) { o.push_back("{"); bool f = true; for (auto &x : v.o) { if (!f) o.push_back(","); f = false; o.push_back(text(JV::of(x.first), s)); o.push_back(":"); tokens(x.second, s, o); } o.push_back("}"); }
  else o.push_back(text(v, s));
}
static void located(Src &s, Ctx &c) {
  JV v = sane(s, 3); if (v.k != JV::Arr && v.k != JV::Obj) { JV a = JV::arr(); a.a.push_back(v); v = a; } std::vector<std::string> tk; tokens(v, s, tk); size_t at = 1 + s.choose(tk.size() - 1); std::string t; auto ws = [&] { size_t n = s.coin() ? 0 : s.choose(4); for (size_t i = 0; i < n; i++) t += s.coin(1, 3) ? '\n' : s.coin(1, 4) ? '\t' : ' '; };
  size_t off = 0; for (size_t i = 0; i < tk.size(); i++) { ws(); if (i == at) { off = t.size(); t += s.pick<char>({'@', '#', '*', '=', ')'}); ws(); } t += tk[i]; } int line = 1, pos = 1; for (size_t i = 0; i < off; i++) if (t[i] == '\n') { line++; pos = 1; } else if ((t[i] & 0xc0) != 0x80) pos++;
  size_t skip = s.coin(1, 4) ? s.choose(3) : 0; std::string first; for (size_t i = 0; i < skip; i++) first += "[1]\n"; line += (int)skip; NOTE(show(first + t) << ", bad character at line " << line << " character " << pos); c.nt(line > 1);
  std::istringstream is(first + t); js::json_parser p(is); PJ j; for (size_t i = 0; i < skip; i++) j = p.parse();
  try { j = p.parse(); } catch (const pfi::lang::parse_error &e) { CHECK(e.lineno() == line && e.pos() == pos, "the error is reported at line " << e.lineno() << " character " << e.pos() << ", the bad character is at line " << line << " character " << pos); std::string w = ":" + std::to_string(line) + ":" + std::to_string(pos) + " "; CHECK(std::string(e.what()).find(w) != std::string::npos, "the message does not tell the place: " << e.what()); c.label(line > 1 ? "on a later line" : "on the first line"); return; } catch (const std::exception &e) { FAIL("not a parse error but: " << e.what()); }
  FAIL("accepted");
}
// arbitrary bytes: a value or a clean refusal; a value prints and re-parses to itself
static void bytes(Src &s, Ctx &c) {
  std::string t;
  switch (s.choose(3)) {
    case 0: t = s.bytes(60); break;
    case 1: { size_t n = s.size(60); for (size_t i = 0; i < n; i++) t += s.ch("[]{}:,\"\\ utfnlase0123456789.eE+-\n"); break; }
    default: { static const char *tok[] = {"[", "]", "{", "}", ":", ",", "\"", "\\", "\\u", "\\u0000", "\\ud83d\\ude00", "true", "false", "null", "0", "-1", "1.5", "1e5", "e", "-", ".", " ", "\n", "\"a\"", "\"\"", "\xff", "\xe3\x81\x82", "\xf0\x9f", "9223372036854775807", "-9223372036854775808", "1e308", "1e-320", "5e-324"}; size_t n = s.size(40); for (size_t i = 0; i < n; i++) t += tok[s.choose(33)]; }
  }
  NOTE("bytes " << show(t)); c.nt(t.size() > 1);
  std::istringstream is(t); js::json_parser p(is); size_t docs = 0;
  for (;;) {
    PJ j;
    try { j = p.parse(); }
    catch (const pfi::lang::end_of_data &) { c.label("ended"); return; }
    catch (const pfi::lang::parse_error &e) { CHECK(e.what() != nullptr, "no text in the error"); c.label("refused"); return; }
    catch (const std::exception &e) { FAIL("neither a value, a parse error nor end of data but: " << e.what()); }
    c.label("document");
    JV v = from_pfi(j), want = after_print(v);
    for (int e = 0; e < 2; e++) { std::ostringstream o; j.print(o, e); std::istringstream i2(o.str()); PJ k; try { i2 >> k; } catch (const std::exception &x) { FAIL("the value " << v.str() << " printed as " << show(o.str()) << " is refused: " << x.what()); } CHECK(from_pfi(k) == want, "value " << v.str() << " re-parsed as " << from_pfi(k).str()); }
    if (++docs > t.size() + 1) FAIL("more documents than bytes: the parser does not advance");
  }
}
Suite pbt::suite() {
  Suite u; u.property = "C03";
  u.rule = "proper prefixes of valid texts, token- and byte-level damage classified by a strict independent reader, a bad character between any two tokens whose line and character the error must name, and arbitrary byte/token soup under ASan with coverage feedback; non-trivial = a non-empty prefix, a text the grammar rejects, or 2+ bytes";
  u.props = {{"truncated", truncated, 80000, 2000000, false}, {"damaged", damaged, 120000, 3000000, true}, {"located", located, 40000, 1000000, false}, {"bytes", bytes, 120000, 4000000, true}};
  u.assumptions = {"tolerated: vertical tab and form feed as white space, leading zeros in numbers, malformed UTF-8 inside strings may be refused or replaced", "nesting depth is small"};
  return u;
}
