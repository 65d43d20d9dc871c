#include "pbt.h"
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
#include <data/config_file.h>
#include <lang/exception.h>
using namespace pbt;
using pfi::data::config_file;
typedef std::map<std::string, std::map<std::string, std::string>> Conf;
static std::string sp(Src &s) { return s.coin() ? "" : s.over(" \t", 3); }
static bool ws(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
static std::string trim(std::string t) { while (!t.empty() && ws(t[0])) t.erase(0, 1); while (!t.empty() && ws(t.back())) t.pop_back(); return t; }
static std::string text(Src &s, size_t max) { if (max > 5 && s.coin(1, 150)) return s.blob(s.edge_len(5000), "abc x;=\"\t."); std::string t = s.coin() ? s.over("abc x;=[]\"\t.", max) : s.utf8(max, false); for (auto &ch : t) if (ch == '\n' || ch == 0) ch = '_'; return t; }
static Conf contents(const config_file &f) { Conf m; for (config_file::const_iterator i = f.begin(); i != f.end(); ++i) { auto &x = m[i->first]; for (config_file::section::const_iterator j = i->second.begin(); j != i->second.end(); ++j) x[j->first] = j->second; } return m; }
static std::string showc(const Conf &m) { std::string r; for (auto &p : m) { r += "[" + show(p.first, 40) + "]"; for (auto &q : p.second) r += show(q.first, 40) + "=" + show(q.second, 40) + ";"; } return r; }
static void config(Src &s, Ctx &c) {
  std::string file, cur; Conf want; size_t n = s.size(s.coin(1, 100) ? 300 : 14); int badline = 0; size_t badpos = 0; bool atend = false; bool crlf = s.coin(1, 5); std::vector<std::string> names, keys; size_t assigned = 0, lines = 0;
  for (size_t i = 0; i < n && !badline; i++) {
    std::string l;
    switch (s.choose(12)) {
      case 0: l = sp(s) + ";" + text(s, 10); break;
      case 1: l = sp(s); break;
      case 2: case 3: { std::string nm = !names.empty() && s.coin() ? names[s.choose(names.size())] : text(s, 5); for (auto &ch : nm) if (ch == ']') ch = ')'; names.push_back(nm); l = sp(s) + "[" + nm + "]" + sp(s); cur = nm; want[cur]; break; }
      case 4: if (s.coin(1, 3)) { badline = (int)i + 1;
          switch (s.choose(3)) { case 0: { std::string t = text(s, 6); for (auto &ch : t) if (ch == ']') ch = '('; l = sp(s) + "[" + t; c.label("missing ]"); atend = true; break; } case 1: l = sp(s) + "[x]" + sp(s); badpos = l.size(); l += s.pick<std::string>({"y", "]", ";", "=", "[y]", "y z"}) + sp(s); c.label("text after ]"); break;
            default: { std::string t = "k" + text(s, 6); for (auto &ch : t) if (ch == '=') ch = '-'; l = sp(s) + t; c.label("missing ="); atend = true; } } break; }  // fall through
      default: { std::string k = !keys.empty() && s.coin(1, 3) ? keys[s.choose(keys.size())] : text(s, 5), v = text(s, 8); for (auto &ch : k) if (ch == '=') ch = '~'; k = trim(k); if (!k.empty() && (k[0] == ';' || k[0] == '[')) k[0] = 'k'; 
          v = trim(v); bool quoted = v.size() >= 2 && v[0] == '"' && v.back() == '"'; std::string val = quoted ? v.substr(1, v.size() - 2) : v; if (!quoted && s.coin(1, 4)) { std::string inner = text(s, 6); v = "\"" + inner + "\""; val = inner; c.label("quoted value"); }
          keys.push_back(k); l = sp(s) + k + sp(s) + "=" + sp(s) + v + sp(s); want[cur][k] = val; assigned++; }
    }
    bool nl = i + 1 < n || s.coin(); file += l; lines++; if (nl) file += crlf ? "\r\n" : "\n"; if (atend && badline) badpos = l.size() + (nl && crlf);
  }
  NOTE("file " << show(file)); c.nt(assigned > 1 || badline);
  std::string fn = std::string(getenv("PBT_TMP")) + "/conf." + std::to_string(getpid()); bool usefile = s.coin(1, 4);
  if (usefile) { std::ofstream o(fn.c_str(), std::ios::binary); o << file; }
  try {
    std::istringstream is(file); config_file f = usefile ? config_file(fn) : config_file(is); ::unlink(fn.c_str());
    CHECK(!badline, "line " << badline << " is malformed but accepted");
    Conf got = contents(f); CHECK(got == want, "read as " << showc(got) << " instead of " << showc(want));
    const config_file &cf = f;
    for (auto &p : want) for (auto &q : p.second) { CHECK(cf[p.first][q.first] == q.second && f[p.first][q.first] == q.second, "value of " << show(q.first)); CHECK(cf.find(p.first) != cf.end() && cf.find(p.first)->second.find(q.first) != cf.find(p.first)->second.end(), "find"); }
    std::string k = text(s, 3) + "!"; if (!want.count(k)) { CHECK(cf.find(k) == cf.end(), "a section that was not written is found"); CHECK(cf[k][k] == "", "a missing key has a value"); CHECK(cf.find(k) == cf.end(), "looking up creates a section"); }
    for (auto &p : want) if (!p.second.count(k)) { CHECK(cf[p.first].find(k) == cf[p.first].end(), "a key that was not written is found"); CHECK(cf[p.first][k] == "", "missing key"); }
    { Conf m2; size_t k2 = 0; for (config_file::iterator i = f.begin(); i != f.end(); ++i) { auto &x = m2[i->first]; CHECK(f.find(i->first) == i, "find of section " << show(i->first)); for (config_file::section::iterator j = i->second.begin(); j != i->second.end(); ++j) { CHECK(i->second.find(j->first) == j, "find of key " << show(j->first)); j->second += "+" + std::to_string(k2++); x[j->first] = j->second; } CHECK(i->second.find("no such key!") == i->second.end(), "a key that was not written is found"); }
      CHECK(f.find("no such section!") == f.end(), "a section that was not written is found"); CHECK(contents(f) == m2 && m2.size() == want.size(), "after assigning through iterators the contents are " << showc(contents(f)));
      config_file g(f); if (!m2.empty()) { g[m2.begin()->first]["another key"] = "x"; g["another section"]; CHECK(contents(f) == m2, "a change of a copy shows in the original"); } }
    if (!want.empty()) { std::string nv = text(s, 4); f[want.begin()->first]["new key"] = nv; CHECK(cf[want.begin()->first]["new key"] == nv, "assigned value"); }
    if (s.coin(1, 30)) { bool th = false; Conf none; try { none = contents(config_file(fn + ".missing")); } catch (const std::exception &) { th = true; } CHECK(th || none.empty(), "a file that does not exist has the contents " << showc(none)); }
  } catch (const pfi::lang::parse_error &e) { ::unlink(fn.c_str()); CHECK(badline, "refused: " << e.what()); CHECK(e.lineno() == badline, "error reported for line " << e.lineno() << " instead of " << badline); CHECK((size_t)e.pos() == badpos, "error reported at position " << e.pos() << " of the line instead of " << badpos); CHECK(e.filename() == (usefile ? fn : ""), "error reported for file " << e.filename()); }
}
Suite pbt::suite() {
  Suite u; u.property = "C21";
  u.rule = "random configuration files (sections, repeated sections and keys, comments, blank lines, quoted values, odd characters, LF and CRLF, from stream or file), a malformed line in some; contents compared in full with a model, errors with their line number and position; non-trivial = 2+ assignments or a malformed line";
  u.props = {{"config", config, 40000, 800000, true}};
  u.assumptions = {"lines contain no NUL"};
  return u;
}
