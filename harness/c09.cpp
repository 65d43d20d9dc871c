#include "ser.h"
using namespace pbt;
// stores T, loads it from every prefix (or a sampled one), and from archives whose counts promise more than there is
template <class T> static void cut_t(Src &s, Ctx &c, const char *name) {
  T v = T(); ser::big() = s.coin(1, 10); ser::gen(s, v); ser::big() = false; std::stringstream ss; { sz::binary_oarchive oa(ss); oa << v; } std::string b = ss.str();
  NOTE(name << " of " << b.size() << " bytes"); c.nt(b.size() > 4); c.label(name);
  size_t lo = 0, hi = b.size(); if (b.size() > 40) { lo = s.coin(1, 3) ? b.size() - 30 : s.choose(b.size() - 30); hi = lo + 30; }
  for (size_t k = lo; k < hi; k++) {
    std::unique_ptr<T> w(new T()); if (s.coin(1, 4)) ser::gen(s, *w);
    std::stringstream in(b.substr(0, k)); sz::binary_iarchive ia(in);
    ia >> *w; CHECK(!ia, name << " of " << b.size() << " bytes cut at byte " << k << " loads without a failure indication");
    int after = 77; ia >> after; CHECK(!ia && after == 77, "a value was read after the end of the archive");
  }
}
template <class T> static void count_t(Src &s, Ctx &c, const char *name) {   // the element count is larger than the data
  T v = T(); ser::big() = s.coin(1, 10); ser::gen(s, v); ser::big() = false; std::stringstream ss; { sz::binary_oarchive oa(ss); oa << v; } std::string b = ss.str();
  uint32_t n = (uint8_t)b[0] | (uint8_t)b[1] << 8 | (uint8_t)b[2] << 16; uint32_t m = n + 1 + (uint32_t)s.choose(5000); for (int i = 0; i < 4; i++) b[i] = (char)(m >> (8 * i));
  NOTE(name << " count " << n << " changed to " << m); c.nt();
  std::stringstream in(b); sz::binary_iarchive ia(in); T w = T(); ia >> w; CHECK(!ia, name << " with " << n << " elements and a count of " << m << " loads without a failure indication");
}
typedef std::map<std::string, std::vector<std::pair<int, std::string>>> M1; typedef pfi::data::unordered_map<std::string, Rec> U1; typedef pfi::data::unordered_set<std::string> U2;
typedef std::deque<std::list<std::string>> DL; typedef std::set<std::pair<long, std::string>> SP;
static void truncated(Src &s, Ctx &c) {
  switch (s.choose(16)) {
    case 0: cut_t<int>(s, c, "int"); break; case 1: cut_t<std::string>(s, c, "string"); break; case 2: cut_t<std::vector<int>>(s, c, "vector<int>"); break; case 3: cut_t<M1>(s, c, "map"); break;
    case 4: cut_t<U1>(s, c, "unordered_map"); break; case 5: cut_t<U2>(s, c, "unordered_set"); break; case 6: cut_t<DL>(s, c, "deque<list>"); break; case 7: cut_t<SP>(s, c, "set<pair>"); break;
    case 8: cut_t<Rec2>(s, c, "structure"); break; case 9: cut_t<std::vector<Rec>>(s, c, "vector<structure>"); break; case 10: cut_t<A3<double>>(s, c, "array"); break; case 11: cut_t<u32s>(s, c, "code-point string"); break;
    case 12: cut_t<std::vector<std::vector<std::string>>>(s, c, "vector<vector<string>>"); break; case 13: cut_t<double>(s, c, "double"); break; case 14: cut_t<std::list<std::pair<char, long>>>(s, c, "list<pair>"); break;
    default: cut_t<std::pair<std::string, bool>>(s, c, "pair");
  }
}
static void counts(Src &s, Ctx &c) {
  switch (s.choose(7)) { case 0: count_t<std::vector<int>>(s, c, "vector<int>"); break; case 1: count_t<std::string>(s, c, "string"); break; case 2: count_t<std::map<int, int>>(s, c, "map"); break; case 3: count_t<pfi::data::unordered_map<int, int>>(s, c, "unordered_map"); break; case 4: count_t<std::set<int>>(s, c, "set"); break; case 5: count_t<std::list<short>>(s, c, "list"); break; default: count_t<std::deque<double>>(s, c, "deque"); }
}
static void streams(Src &s, Ctx &c) {
  std::string v = s.coin() ? s.over("\xff a\x01", 30) : s.bytes(60); std::stringstream src(v), ss; { sz::binary_oarchive oa(ss); sz::stream<> st(src); oa << st; } std::string b = ss.str();
  NOTE("stream " << show(v)); c.nt(b.size() > 3);
  for (size_t k = 0; k < b.size(); k++) { std::stringstream in(b.substr(0, k)), out; sz::binary_iarchive ia(in); sz::stream<> st(out); ia >> st; CHECK(!ia, "stream cut at " << k << " of " << b.size() << " loads without a failure indication"); std::string o = out.str(); CHECK(v.compare(0, o.size(), o) == 0 || o.size() <= v.size() + 1, "a cut stream delivered foreign data"); }
}
static void interned(Src &s, Ctx &c) {
  pfi::data::intern<std::string> t; size_t n = 1 + s.size(20); for (size_t i = 0; i < n; i++) t.key2id(s.over("abcd", 4)); std::stringstream ss; { sz::binary_oarchive oa(ss); oa << t; } std::string b = ss.str(); NOTE("table of " << t.size()); c.nt(t.size() > 1);
  for (size_t k = 0; k < b.size(); k++) { std::stringstream in(b.substr(0, k)); sz::binary_iarchive ia(in); pfi::data::intern<std::string> w; ia >> w; CHECK(!ia, "table cut at " << k << " loads without a failure indication"); size_t sz = w.size(); for (size_t i = 0; i < sz; i++) if (w.exist_id((int)i)) w.id2key((int)i); }
  // damaged numbers
  std::string d = b; size_t at = s.choose(d.size()); if (at >= 4) { d[at] = (char)s.choose(256); // lengths are at unknown places: keep them small
    std::stringstream in(d); sz::binary_iarchive ia(in); pfi::data::intern<std::string> w; bool small = true; { // independent scan of the damaged bytes
      size_t p = 4; uint32_t cnt; memcpy(&cnt, d.data(), 4); for (uint32_t i = 0; i < cnt && p + 4 <= d.size(); i++) { uint32_t l; memcpy(&l, d.data() + p, 4); if (l > 100000) small = false; p += 8 + (size_t)l; } }
    if (small) { ia >> w; c.label("damaged table"); } }
}
Suite pbt::suite() {
  Suite u; u.property = "C09";
  u.rule = "random values of 16 types, streams and interning tables stored and loaded from every prefix (a window of 30 prefixes for long ones), and with element counts larger than the data, under ASan; the archive must test as failed and stay failed; non-trivial = an archive of more than 4 bytes";
  u.props = {{"truncated", truncated, 30000, 800000, true}, {"counts", counts, 30000, 500000, false}, {"streams", streams, 20000, 400000, true}, {"interned", interned, 10000, 300000, false}};
  u.assumptions = {"damaged element counts exceed the data by at most 5000 (a count in the billions makes loading allocate that much before it fails)"};
  u.cpu_limit = 15;
  return u;
}
