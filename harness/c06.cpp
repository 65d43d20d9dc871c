#include "pbt.h"
#include <memory>
#include <text/csv.h>
using namespace pbt;
using pfi::text::csv_parser; using pfi::text::csv_iterator;
typedef std::vector<std::vector<std::string>> Tab;
static std::string showt(const Tab &t) { std::string r; for (auto &x : t) { r += "["; for (size_t i = 0; i < x.size(); i++) r += (i ? "," : "") + show(x[i], 40); r += "]"; } return r; }
// exact-size heap copy: reading beyond it is reported by ASan
static Tab read(const std::string &t, int how) {
  Tab r; std::unique_ptr<char[]> buf(new char[t.size()]); memcpy(buf.get(), t.data(), t.size());
  const char *b = buf.get(), *e = b + t.size();
  switch (how) {
    case 0: { csv_parser p(b, e); while (p.next()) { CHECK(!p.end(), "end() is true although a record was delivered"); r.push_back(std::vector<std::string>(p.get().begin(), p.get().end())); } CHECK(p.end(), "end() is false after the last record"); break; }
    case 1: { csv_parser p(t); for (csv_iterator i(p), q; i != q; ++i) r.push_back(std::vector<std::string>(i->begin(), i->end())); break; }
    case 2: { std::istringstream is(t); csv_parser p(is); for (csv_iterator i(p), q; i != q; i++) r.push_back(std::vector<std::string>((*i).begin(), (*i).end())); break; }
    case 3: { csv_parser p(b, e); csv_iterator i(p), q; while (i != q) { csv_iterator old = i++; r.push_back(std::vector<std::string>(old->begin(), old->end())); } break; }
    default: { std::vector<char> v(b, e); csv_parser p(v.begin(), v.end()); while (p.next()) { std::vector<std::string> row; for (const char *f : p.get()) row.push_back(f); r.push_back(row); } }
  }
  return r;
}
// an independent reader of well-formed CSV is not needed: the table itself is the oracle
static std::string field(Src &s, Ctx &c) {
  switch (s.choose(6)) {
    case 0: return "";
    case 1: return s.over("ab", 3);
    case 2: { std::string t = s.over("a\",\r\n b", 8); return t; }
    case 3: { std::string t = s.bytes(20); for (auto &ch : t) if (!ch) ch = 'x'; return t; }
    case 4: if (s.coin(1, 4)) { size_t base = s.pick<size_t>({1000, 1016, 1023, 1024, 1025, 2040, 2047, 2048, 4096}); c.label("field near a buffer boundary"); return std::string(base - 8 + s.choose(17), 'z'); } if (s.coin(1, 20)) return s.blob(s.edge_len(40000), s.coin() ? "abc" : "ab\",\r\n"); return s.over("xyz \"", 12);
    default: return s.utf8(10, false);
  }
}
static void tables(Src &s, Ctx &c) {
  Tab t; size_t rows = s.size(8); std::string text; bool crlf = s.coin(), allq = s.coin(1, 4);
  if (s.coin(1, 20)) rows = s.choose(3);
  for (size_t i = 0; i < rows; i++) {
    std::vector<std::string> row; size_t n = 1 + (s.coin(1, 100) ? s.edge_len(3000) : s.size(s.coin(1, 8) ? 200 : 6));
    bool many = n > 30; if (many) c.label("record with many fields");
    for (size_t k = 0; k < n; k++) row.push_back(n > 250 ? std::string(k % 5, 'm') : many ? s.over("ab", 20) : field(s, c));
    for (size_t k = 0; k < n; k++) {
      const std::string &f = row[k]; bool need = f.find_first_of("\",\r\n") != std::string::npos;
      bool q = need || allq || s.coin(1, 5);
      if (n == 1 && f.empty() && i + 1 == rows) q = true;       // an unterminated empty last line is not a record
      if (k) text += ',';
      if (q) { text += '"'; for (char ch : f) { if (ch == '"') text += '"'; text += ch; } text += '"'; if (need) c.label("field that needs quoting"); }
      else text += f;
    }
    t.push_back(row);
    if (i + 1 < rows || s.coin()) text += (crlf || s.coin(1, 6)) ? "\r\n" : "\n"; else c.label("no final line break");
  }
  NOTE("text " << show(text)); c.nt(t.size() > 0 && (t.size() > 1 || t[0].size() > 1 || t[0][0].size() > 0));
  int how = (int)s.choose(5);
  Tab got = read(text, how);
  CHECK(got == t, "read " << showt(got).substr(0, 500) << " instead of " << showt(t).substr(0, 500) << " (interface " << how << ")");
  Tab g2; pfi::text::parse_csv(text, g2); CHECK(g2 == t, "parse_csv gives " << showt(g2).substr(0, 500));
}
// any bytes: stays inside the input, terminates, and every interface agrees
static void soup(Src &s, Ctx &c) {
  std::string t = s.coin() ? s.over("a\",\r\n", 40) : s.bytes(60);
  if (s.coin(1, 10)) { t.insert(s.choose(t.size() + 1), std::string(s.pick<size_t>({1022, 1023, 1024, 1025, 2047, 2048}), s.ch("a\",b"))); c.label("long"); }
  NOTE("bytes " << show(t)); c.nt(t.size() > 1);
  Tab a = read(t, 0); size_t tot = 0; for (auto &r : a) { CHECK(!r.empty(), "a record without fields"); tot += r.size(); }
  CHECK(tot <= t.size() + 1, "more fields than the input has bytes");
  Tab b = read(t, 4); CHECK(a == b, "two readers disagree on the same bytes");
  Tab d = read(t, 2); CHECK(a == d, "reading from a stream gives " << showt(d).substr(0, 300) << " instead of " << showt(a).substr(0, 300));
}
Suite pbt::suite() {
  Suite u; u.property = "C06";
  u.rule = "random tables (fields with quotes, separators, line breaks, any non-NUL bytes, lengths around the 1024-byte buffer and its doublings) written as CSV with random optional quoting and line ends, read through 5 interfaces and compared with the table; arbitrary byte soup under ASan with all interfaces compared; non-trivial = a table with content / 2+ bytes";
  u.props = {{"tables", tables, 60000, 1500000, true}, {"soup", soup, 100000, 2000000, true}};
  u.assumptions = {"fields contain no NUL (they are delivered as C strings)"};
  return u;
}
