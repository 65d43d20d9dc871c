#include "pbt.h"
#include <map>
#include <memory>
#include <text/xhtml.h>
#include <network/cgi/xhtml_cgi.h>
using namespace pbt;
using namespace pfi::text::xhtml;
namespace cgi = pfi::network::cgi;
struct E { std::string name, text; bool is_text = false, raw = false; std::map<std::string, std::string> at; std::vector<E> ch;
  bool operator==(const E &r) const { return is_text == r.is_text && name == r.name && text == r.text && at == r.at && ch == r.ch; } };
static std::string str(const E &e) { if (e.is_text) return show(e.text, 60); std::string r = "<" + e.name; for (auto &a : e.at) r += " " + a.first + "=" + show(a.second, 60); r += ">"; for (auto &x : e.ch) r += str(x); return r + "</>"; }
static size_t nodes(const E &e) { size_t n = 1; for (auto &x : e.ch) n += nodes(x); return n; }
// ---- generator ----
static std::string name(Src &s) { std::string n; n += s.ch("abcdivspntrhx"); size_t k = s.choose(4); for (size_t i = 0; i < k; i++) n += s.ch("abc1-_."); return n; }
static std::string data(Src &s) { switch (s.choose(4)) { case 0: return s.over("<>&\"' a/=;#", 12); case 1: { static const char *f[] = {"</", "<b>", "&amp;", "&lt;", "\">", "'>", "/>", "<!--", "-->", "]]>", "&#60;", "<script>", "x=\"y\"", "&", ";", "quot", "\n", " "}; std::string r; size_t n = s.size(6); for (size_t i = 0; i < n; i++) r += f[s.choose(18)]; return r; } case 2: if (s.coin(1, 12)) return s.blob(s.edge_len(6000), "ab<>&\"' "); return s.bytes(12); default: return s.utf8(8); } }
static E gen(Src &s, int d) {
  E e; e.name = name(s); size_t na = s.coin(1, 100) ? s.choose(60) : s.choose(4); for (size_t i = 0; i < na; i++) { std::string k = name(s); e.at[k] = s.coin(1, 6) ? "" : data(s); }
  if (d > 0 && s.coin(1, 150)) { size_t n = s.edge_len(600); for (size_t i = 0; i < n; i++) { E t; if (i % 3) t.name = "w"; else { t.is_text = true; t.text = "<" + std::to_string(i); } e.ch.push_back(t); } return e; }
  if (d > 0) { size_t n = s.size(5); for (size_t i = 0; i < n; i++) if (s.coin()) e.ch.push_back(gen(s, d - 1)); else { E t; t.is_text = true; t.raw = s.coin(1, 5); t.text = data(s); e.ch.push_back(t); } }
  return e;
}
// raw markup, written by the caller: every character as it likes, as long as it reads back as the text
static std::string markup(const std::string &t) { std::string r; for (size_t i = 0; i < t.size(); i++) { char ch = t[i]; if (ch == '<') r += i % 2 ? "&lt;" : "&#60;"; else if (ch == '&') r += i % 2 ? "&amp;" : "&#x26;"; else r += ch; } return r; }
static E merge_text(const E &e) { E r = e; r.ch.clear(); for (auto &x : e.ch) { if (x.is_text) { if (x.text.empty()) continue; if (!r.ch.empty() && r.ch.back().is_text) { r.ch.back().text += x.text; continue; } r.ch.push_back(x); } else r.ch.push_back(merge_text(x)); } return r; }
static pfi::lang::shared_ptr<html_elem> build(const E &e, Src &s) {
  if (e.raw) return pfi::lang::shared_ptr<html_elem>(new prim_elem(markup(e.text)));
  if (e.is_text) return pfi::lang::shared_ptr<html_elem>(new text_elem(e.text));
  pfi::lang::shared_ptr<tag_elem> t;
  if (s.coin()) t = pfi::lang::shared_ptr<tag_elem>(new tag_elem(e.name, e.at)); else { t = pfi::lang::shared_ptr<tag_elem>(new tag_elem(e.name)); for (auto &a : e.at) (*t)[a.first] = a.second; }
  for (auto &x : e.ch) t->add_child(build(x, s));
  return t;
}
// ---- independent reader of the produced markup (XML tags and entities; attribute without value = empty) ----
struct Bad { std::string why; size_t at; };
struct Reader {
  std::string t; size_t p = 0; explicit Reader(const std::string &x) : t(x) {}
  [[noreturn]] void bad(const char *w) { throw Bad{w, p}; }
  static bool nm(char c) { return isalnum((unsigned char)c) || c == '-' || c == '_' || c == '.'; }
  void ws() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) p++; }
  std::string nam() { size_t b = p; while (p < t.size() && nm(t[p])) p++; if (b == p) bad("name expected"); return t.substr(b, p - b); }
  void ent(std::string &o) { size_t e = t.find(';', p); if (e == std::string::npos || e - p > 8) bad("bare &"); std::string n = t.substr(p + 1, e - p - 1); p = e + 1;
    if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else if (n[0] == '#') { long v = n.size() > 1 && n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : strtol(n.c_str() + 1, 0, 10); utf8_append(o, (uint32_t)v); } else bad("unknown entity"); }
  E elem() {
    E e; if (p >= t.size() || t[p] != '<') bad("< expected"); p++; e.name = nam();
    for (;;) {
      size_t b = p; ws(); if (p >= t.size()) bad("eof in tag");
      if (t[p] == '/') { if (p + 1 >= t.size() || t[p + 1] != '>') bad("/> expected"); p += 2; return e; }
      if (t[p] == '>') { p++; break; }
      if (b == p) bad("space expected"); std::string k = nam(), v; if (p < t.size() && t[p] == '=') { p++; if (t[p] != '"' && t[p] != '\'') bad("quote expected"); char q = t[p++]; for (;;) { if (p >= t.size()) bad("eof in attribute"); if (t[p] == q) { p++; break; } if (t[p] == '<') bad("< in attribute"); if (t[p] == '&') ent(v); else v += t[p++]; } }
      if (e.at.count(k)) bad("duplicate attribute"); e.at[k] = v;
    }
    for (;;) {
      if (p >= t.size()) bad("eof in content");
      if (t[p] == '<') {
        if (p + 1 < t.size() && t[p + 1] == '/') { p += 2; if (nam() != e.name) bad("mismatched end tag"); ws(); if (p >= t.size() || t[p] != '>') bad("> expected"); p++; return e; }
        e.ch.push_back(elem());
      } else { E x; x.is_text = true; while (p < t.size() && t[p] != '<') { if (t[p] == '&') ent(x.text); else x.text += t[p++]; } e.ch.push_back(x); }
    }
  }
};
static void compare(const E &e, const std::string &out, const char *how) {
  E got; try { Reader r(out); got = r.elem(); if (r.p != out.size()) throw Bad{"trailing text", r.p}; } catch (Bad &b) { FAIL(how << " output is not well formed (" << b.why << " at " << b.at << "): " << show(out)); }
  E want = merge_text(e); CHECK(merge_text(got) == want, how << " output reads as " << str(got) << " from " << show(out));
}
static void trees(Src &s, Ctx &c) {
  E e = gen(s, 4); if (s.coin(1, 60)) { size_t n = s.edge_len(300); for (size_t i = 0; i < n; i++) { E o; o.name = "d"; if (s.coin(1, 8)) { E t; t.is_text = true; t.text = data(s); o.ch.push_back(t); } o.ch.push_back(std::move(e)); e = std::move(o); } c.label("deep"); } NOTE(str(e)); c.nt(nodes(e) > 1 || !e.at.empty());
  auto h = build(e, s); std::ostringstream a, b; h->render(a); h->pretty(b);
  compare(e, a.str(), "plain"); compare(e, b.str(), "pretty");
}
// the page builder
struct Page : cgi::xhtml_cgi {
  const E *root;
  void emit(const E &e) { if (e.raw) { prim__(markup(e.text)); return; } if (e.is_text) { text__(e.text); return; } tag__(e.name) { for (auto &a : e.at) attr__(a.first) = a.second; for (auto &x : e.ch) emit(x); } }
  void run() { emit(*root); }
  using pfi::network::cgi::xhtml_cgi::run;
  Page *clone() const { return new Page(*this); }
};
static void pages(Src &s, Ctx &c) {
  Page p; for (int rep = 0; rep < 2; rep++) {
    E e = gen(s, 3); if (s.coin(1, 60)) { size_t n = s.edge_len(300); for (size_t i = 0; i < n; i++) { E o; o.name = "d"; o.ch.push_back(std::move(e)); e = std::move(o); } } NOTE(str(e)); c.nt(nodes(e) > 1); p.root = &e; std::ostringstream o;
    static_cast<cgi::xhtml_cgi &>(p).run(o); std::string t = o.str();
    CHECK(t.compare(0, 5, "<?xml") == 0, "no XML declaration"); size_t i = t.find("?>\n"); CHECK(i != std::string::npos, "no XML declaration"); i += 3; CHECK(t.compare(i, 9, "<!DOCTYPE") == 0, "no DOCTYPE"); i = t.find(">\n", i) + 2;
    CHECK(t.back() == '\n', "no final newline"); compare(e, t.substr(i, t.size() - i - 1), "page");
  }
}
// the ready-made tags and attributes
#define TAGS X(a) X(abbr) X(acronym) X(address) X(applet) X(area) X(b) X(base) X(basefont) X(bdo) X(bgsound) X(big) X(blink) X(blockquote) X(body) X(br) X(button) X(caption) X(center) X(cite) X(code) X(col) X(colgroup) X(comment) X(dd) X(del) X(dfn) X(dir) X(div) X(dl) X(dt) X(em) X(embed) X(fieldset) X(font) X(form) X(frame) X(frameset) X(h1) X(h2) X(h3) X(h4) X(h5) X(h6) X(head) X(hr) X(html) X(i) X(iframe) X(ilayer) X(img) X(input) X(ins) X(isindex) X(kbd) X(label) X(layer) X(legend) X(li) X(link) X(listing) X(map) X(marquee) X(menu) X(meta) X(multicol) X(nobr) X(noembed) X(noframes) X(nolayer) X(noscript) X(object) X(ol) X(optgroup) X(option) X(p) X(param) X(plaintext) X(pre) X(q) X(rb) X(rp) X(rt) X(ruby) X(s) X(samp) X(script) X(select) X(small) X(spacer) X(span) X(strike) X(strong) X(style) X(sub) X(sup) X(table) X(tbody) X(td) X(textarea) X(tfoot) X(th) X(thead) X(title) X(tr) X(tt) X(u) X(ul) X(var) X(wbr) X(xmp)
#define ATTRS X(abbr_a, "abbr") X(accesskey, "accesskey") X(accept, "accept") X(accept_charset, "accept-charset") X(action, "action") X(align, "align") X(alink, "alink") X(alt, "alt") X(archive, "archive") X(axis, "axis") X(background, "background") X(bgcolor, "bgcolor") X(border, "border") X(cellpadding, "cellpadding") X(cellspacing, "cellspacing") X(checked, "checked") X(char, "char") X(charoff, "charoff") X(charset, "charset") X(cite_a, "cite") X(class, "class") X(classid, "classid") X(clear, "clear") X(code_a, "code") X(codetype, "codetype") X(codebase, "codebase") X(color, "color") X(cols, "cols") X(colspan, "colspan") X(compact, "compact") X(content, "content") X(coords, "coords") X(data, "data") X(declare, "declare") X(defer, "defer") X(dir_a, "dir") X(disabled, "disabled") X(enctype, "enctype") X(face, "face") X(for, "for") X(frame_a, "frame") X(frameborder, "frameborder") X(headers, "headers") X(height, "height") X(href, "href") X(hreflang, "hreflang") X(hspace, "hspace") X(http_equiv, "http-equiv") X(id, "id") X(ismap, "ismap") X(label_a, "label") X(lang, "lang") X(language, "language") X(link_a, "link") X(longdesc, "longdesc") X(marginheight, "marginheight") X(marginwidth, "marginwidth") X(maxlength, "maxlength") X(media, "media") X(method, "method") X(multiple, "multiple") X(name, "name") X(nohref, "nohref") X(noresize, "noresize") X(noshade, "noshade") X(nowrap, "nowrap") X(object_a, "object") X(readonly, "readonly") X(rel, "rel") X(rev, "rev") X(rows, "rows") X(rowspan, "rowspan") X(rules, "rules") X(scrolling, "scrolling") X(scope, "scope") X(selected, "selected") X(shape, "shape") X(size, "size") X(span_a, "span") X(src, "src") X(start, "start") X(standby, "standby") X(style_a, "style") X(summary, "summary") X(tabindex, "tabindex") X(target, "target") X(text_a, "text") X(title_a, "title") X(type, "type") X(usemap, "usemap") X(valign, "valign") X(value, "value") X(valuetype, "valuetype") X(vlink, "vlink") X(vspace, "vspace") X(width, "width") X(onLoad, "onLoad") X(onUnload, "onUnload") X(onClick, "onClick") X(onDblClick, "onDblClick") X(onMouseDown, "onMouseDown") X(onMouseUp, "onMouseUp") X(onMouseOver, "onMouseOver") X(onMouseOut, "onMouseOut") X(onMouseMove, "onMouseMove") X(onKeyPress, "onKeyPress")
struct Named : Page { size_t tag = 0; bool which = false; std::string name, value, inner;
  void run() { size_t k = tag; if (which) { tag__(name) {
#define X(a, n) if (k-- == 0) { a##__ = value; }
    ATTRS
#undef X
    text__(inner); } return; }
#define X(t) if (k-- == 0) { t##__ { attr__(name) = value; text__(inner); } }
    TAGS
#undef X
  } using pfi::network::cgi::xhtml_cgi::run; };
static void macros(Src &s, Ctx &c) {
  static const char *tn[] = {
#define X(t) #t,
    TAGS
#undef X
  }, *an[] = {
#define X(a, n) n,
    ATTRS
#undef X
  }; Named p; p.which = s.coin(); p.name = name(s); p.tag = s.choose(p.which ? sizeof an / sizeof *an : sizeof tn / sizeof *tn); p.value = data(s); p.inner = data(s); c.nt(); E e, t; e.name = p.which ? p.name : tn[p.tag]; e.at[p.which ? an[p.tag] : p.name] = p.value; t.is_text = true; t.text = p.inner; e.ch.push_back(t); NOTE(str(e)); std::ostringstream o; static_cast<cgi::xhtml_cgi &>(p).run(o); std::string m = o.str(); size_t i = m.find("?>\n") + 3; i = m.find(">\n", i) + 2; CHECK(m.size() > i, "an empty page"); compare(e, m.substr(i, m.size() - i - 1), "page");
}
static void encode(Src &s, Ctx &c) {
  std::string d = s.coin() ? data(s) : s.bytes(40); c.nt(d.size() > 1); NOTE(show(d));
  std::string e = html_encode(d); for (char ch : e) CHECK(!strchr("<>\"'", ch) || ch == 0, "encoded text contains " << ch);
  std::string back; Reader r(e); while (r.p < e.size()) if (e[r.p] == '&') { try { r.ent(back); } catch (Bad &b) { FAIL("encoded text has a bare &: " << show(e)); } } else back += e[r.p++];
  CHECK(back == d, "decodes to " << show(back));
}
Suite pbt::suite() {
  Suite u; u.property = "C07";
  u.rule = "random element trees (depth<=5) whose attribute values and texts are full of markup, quotes and entity look-alikes, rendered plain, pretty and through the nested-tag page builder (twice on one page object), re-read by an independent tag/entity reader; every ready-made tag with every ready-made attribute; non-trivial = 2+ nodes or attributes";
  u.props = {{"trees", trees, 60000, 1500000, true}, {"pages", pages, 30000, 600000, false}, {"macros", macros, 10000, 100000, false}, {"encode", encode, 40000, 600000, false}};
  u.assumptions = {"element and attribute names are XML names", "raw-markup elements hold well-formed markup, which appears as given", "an attribute with empty value is written without a value"};
  return u;
}
