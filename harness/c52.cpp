// C52: calls on separate objects, and calls that only read a shared one, do not disturb each other across threads.
#include "lincheck.h"
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <complex>
#include <text/json.h>
#include <text/csv.h>
#include <text/xhtml.h>
#include <data/serialization.h>
#include <data/string/ustring.h>
#include <data/string/utility.h>
#include <data/string/aho_corasick.h>
#include <data/string/kmp.h>
#include <data/string/algorithm.h>
#include <data/encoding/base64.h>
#include <data/digest/md5.h>
#include <data/code/code.h>
#include <data/sparse_matrix/sparse_matrix.h>
#include <data/config_file.h>
#include <data/lru.h>
#include <data/intern.h>
#include <data/fenwick_tree.h>
#include <data/optional.h>
#include <network/uri.h>
#include <network/ipv4.h>
#include <network/http/base.h>
#include <network/cgi/base.h>
#include <network/cgi/util.h>
#include <network/rpc/reflect.h>
#include <lang/cast.h>
#include <lang/any.h>
#include <lang/shared_ptr.h>
#include <lang/weak_ptr.h>
#include <lang/function.h>
#include <lang/bind.h>
#include <lang/demangle.h>
#include <math/random.h>
#include <math/ratio.h>
#include <math/fft.h>
#include <math/vector.h>
#include <system/time_util.h>
#include <system/syscall.h>
#include <system/mmapper.h>
#include <system/endian_util.h>
using namespace pbt;
namespace pbt { [[noreturn]] void fail_now(const std::string &); const char *slot_message(); }
namespace {
namespace js = pfi::text::json; namespace ser = pfi::data::serialization; namespace ps = pfi::data::string;
typedef std::string S;
struct In { S a, b; std::vector<int> v; int n = 0; uint64_t w = 0; };
template <class T> S str(const T &x) { std::ostringstream o; o << std::setprecision(17) << x; return o.str(); }
template <class C> S list(const C &x) { S r; for (auto &e : x) r += str(e) + ","; return r; }
S hex(const S &s) { static const char d[] = "0123456789abcdef"; S r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
struct Rec { int i = 0; double d = 0; S s; std::vector<int> v; std::map<S, int> m; pfi::data::optional<S> o; template <class A> void serialize(A &ar) { ar & MEMBER(i) & MEMBER(d) & MEMBER(s) & MEMBER(v) & MEMBER(m) & MEMBER(o); } };
struct Bin { int i = 0; double d = 0; S s; std::vector<int> v; std::map<S, int> m; std::set<int> t; std::list<S> l; template <class A> void serialize(A &ar) { ar & i & d & s & v & m & t & l; } };
struct Small { int i = 0; S s; std::vector<int> v; template <class A> void serialize(A &ar) { ar & i & s & v; } };
Rec rec(const In &x) { Rec r; r.i = x.n; r.d = x.n / 8.0; r.s = x.a; r.v = x.v; for (int e : x.v) r.m[str(e)] = e; if (x.w & 1) r.o = x.b; return r; }
js::json doc(const In &x) { js::json d(new js::json_object()); d["s"] = js::to_json(x.a); d["n"] = js::to_json(x.n); js::json a(new js::json_array()); for (int e : x.v) { js::json o(new js::json_object()); o["v"] = js::to_json(e); o["d"] = js::to_json(e / 16.0); o["b"] = js::to_json((e & 1) == 1); a.add(o); } d["a"] = a; d["z"] = js::json(new js::json_null()); d["q\n\"" + x.a] = js::to_json(x.b); return d; }
S shown(const js::json &j) { std::ostringstream o; o << j; return o.str(); }
S pretty(const js::json &j) { std::ostringstream o; j.pretty(o, true); return o.str(); }
js::json parsed(const S &t) { js::json j; std::istringstream i(t); i >> j; return j; }
S utf(const S &s) { S r; for (unsigned char c : s) utf8_append(r, c < 0x80 ? c : 0x3040 + c % 90 + (c > 200 ? 0x10000 : 0)); return r; }
S word(const S &s) { S r; for (unsigned char c : s) r += (char)('a' + c % 3); return r; }
S print_row(const pfi::text::csv_parser &p) { S r; for (const char *f : p.get()) r += hex(f) + ","; return r; }
class Echo : public pfi::network::cgi::cgi, public pfi::network::cgi::cloner<Echo> { public: void run(std::ostream &o) { for (auto &q : query) o << hex(q.first) << "=" << hex(q.second) << ";"; for (auto &q : multi_query) for (auto &e : q.second) o << hex(q.first) << "+" << hex(e) << ";"; for (auto &q : file) o << hex(q.first) << ":" << hex(q.second) << ";"; o << method; } };
struct Op { const char *name; std::function<S(const In &)> f; };
const S &scratch() { static S d = [] { S p = "/tmp/c52." + std::to_string(getpid()); return p; }(); return d; }
std::atomic<int> files{0};
struct TmpFile { S p; TmpFile(const S &data) { { sched::Quiet q; p = scratch() + "." + std::to_string(getpid()) + "." + std::to_string(files++); } FILE *f = fopen(p.c_str(), "wb"); if (f) { fwrite(data.data(), 1, data.size(), f); fclose(f); } } ~TmpFile() { ::unlink(p.c_str()); ::unlink((p + ".offset").c_str()); } };
// Objects that several threads read at once.  They are made by one thread before the others start.
struct Shared { pfi::lang::shared_ptr<ps::aho_corasick> aho; pfi::lang::shared_ptr<ps::kmp<S>> kmp; js::json j; pfi::data::intern<S> in; std::shared_ptr<pfi::network::uri> u; pfi::network::http::header h; pfi::data::config_file *cf = nullptr; pfi::lang::any any; pfi::lang::function<int(int)> fn; pfi::lang::shared_ptr<S> sp; pfi::lang::weak_ptr<S> wp; pfi::data::optional<S> opt; pfi::lang::shared_ptr<ser::type_rep> rep; pfi::lang::shared_ptr<pfi::text::xhtml::tag_elem> tag; pfi::math::ratio::ratio<int> *ra = nullptr; } *sh = nullptr;
pfi::lang::shared_ptr<pfi::text::xhtml::tag_elem> page(const In &x) { using namespace pfi::text::xhtml; pfi::lang::shared_ptr<tag_elem> t(new tag_elem("div")); (*t)["title"] = x.a; t->add_child(pfi::lang::shared_ptr<html_elem>(new text_elem(x.b))); pfi::lang::shared_ptr<tag_elem> k(new tag_elem("p")); k->add_child(pfi::lang::shared_ptr<html_elem>(new text_elem(x.a))); t->add_child(k); t->add_child(pfi::lang::shared_ptr<html_elem>(new prim_elem("<br/>"))); return t; }
int add(int a, int b) { return a * 3 + b; }
const std::vector<Op> ops = {
  {"json print", [](const In &x) { return shown(doc(x)); }},
  {"json pretty", [](const In &x) { return pretty(doc(x)); }},
  {"json parse", [](const In &x) { return shown(parsed(shown(doc(x)))); }},
  {"json parse of broken text", [](const In &x) { S t = shown(doc(x)); t.resize(x.w % (t.size() + 1)); try { return shown(parsed(t)); } catch (const std::exception &e) { return S("error ") + e.what(); } }},
  {"json numbers", [](const In &x) { return shown(parsed("[" + str(x.n / 7.0) + ",1e" + str(x.n % 20) + "," + str(x.n) + ",-0.5e-3]")); }},
  {"json strings", [](const In &x) { return shown(parsed("[\"\\u3042\\ud840\\udc0b" + word(x.a) + "\\n\",\"" + word(x.b) + "\\\"\"]")); }},
  {"to_json and json_cast", [](const In &x) { Rec r = rec(x); js::json j = js::to_json(r); Rec q = js::json_cast<Rec>(j); return shown(js::to_json(q)) + shown(j); }},
  {"json_cast of the wrong type", [](const In &x) { try { js::json j = doc(x); std::vector<int> v = js::json_cast<std::vector<int> >(x.w & 1 ? j["a"] : j); return list(v); } catch (const std::exception &e) { return S("error ") + e.what(); } }},
  {"csv", [](const In &x) { const S t = x.a + ",\"" + word(x.b) + "\"\"x\"\n" + x.b + "\n"; pfi::text::csv_parser p(t); S r; while (p.next()) r += print_row(p) + "|"; return r; }},
  {"xhtml", [](const In &x) { auto t = page(x); std::ostringstream o; t->render(o); t->pretty(o, 0); return o.str(); }},
  {"html_encode", [](const In &x) { return pfi::text::xhtml::html_encode("<&\"" + x.a + ">'" + x.b); }},
  {"serialization", [](const In &x) { Bin b; b.i = x.n; b.d = x.n / 3.0; b.s = x.a; b.v = x.v; for (int e : x.v) { b.m[str(e)] = e; b.t.insert(e); b.l.push_back(str(e)); } std::stringstream ss; ser::binary_oarchive oa(ss); oa << b; oa.flush(); S bytes = ss.str(); Bin c; ser::binary_iarchive ia(ss); ia >> c; return hex(bytes) + str(c.i) + str(c.d) + hex(c.s) + list(c.v) + list(c.t) + list(c.l); }},
  {"type description", [](const In &x) { std::ostringstream o; switch (x.w % 4) { case 0: ser::get_type<std::map<S, std::vector<int> > >()->print(o); break; case 1: ser::get_type<Small>()->print(o); break; case 2: ser::get_type<std::vector<std::vector<double> > >()->print(o); break; default: ser::get_type<std::map<S, S> >()->print(o); } return o.str(); }},
  {"utf-8", [](const In &x) { S t = utf(x.a + x.b); ps::ustring u = ps::string_to_ustring(t); S r = ps::ustring_to_string(u); for (auto c : u) r += ps::uchar_to_string(c); return r; }},
  {"broken utf-8", [](const In &x) { try { return ps::ustring_to_string(ps::string_to_ustring(x.a)); } catch (const std::exception &e) { return S("error ") + e.what(); } }},
  {"utf-8 normalization", [](const In &x) { S t; for (unsigned char c : x.a + x.b) utf8_append(t, c % 3 ? 0xff66 + c % 58 : c % 2 ? 0xff21 + c % 26 : 0x30 + c % 10); return ps::ustring_to_string(ps::hankaku_to_zenkaku(ps::string_to_ustring(t))) + ps::ustring_to_string(ps::zenkaku_latin_to_basic_latin(ps::string_to_ustring(t))); }},
  {"base64", [](const In &x) { S e = pfi::data::encoding::base64_encode(x.a + x.b); return e + hex(pfi::data::encoding::base64_decode(e)); }},
  {"md5", [](const In &x) { std::ostringstream o; o << pfi::data::digest::md5sum(x.a + x.b); return o.str(); }},
  {"bit codes", [](const In &x) { pfi::data::code::encoder e; for (int v : x.v) { unsigned u = (unsigned)v & 0xffff; e.gamma(u + 1); e.delta(u + 1); e.rice(u % 300 + 1, 3); e.prefix_code(u % 500); e.word_with_length(u & 0xff, 9); e.byte((unsigned char)u); } std::vector<unsigned char> b = e.get_bytes(); b.resize(b.size() + 8); pfi::data::code::decoder d; d.attach(&b[0]); S r; for (size_t i = 0; i < x.v.size(); i++) { r += str(d.gamma()) + "," + str(d.delta()) + "," + str(d.rice(3)) + "," + str(d.prefix_code()) + "," + str(d.word_with_length(9)) + "," + str((int)d.byte()) + ";"; } return r; }},
  {"sparse matrix", [](const In &x) { TmpFile f(""); { pfi::data::sparse_matrix::sparse_matrix_writer w; if (w.open(f.p)) return S("cannot open"); for (size_t i = 0; i < x.v.size(); i++) { std::map<int, unsigned char> row; for (size_t k = 0; k < i % 4; k++) row[std::abs(x.v[(i + k) % x.v.size()] % 1000)] = (unsigned char)(1 + k); w.append_row(row); } w.close(); } pfi::data::sparse_matrix::sparse_matrix_reader rd; if (rd.open(f.p)) return S("cannot open for reading"); S r; for (int i = 0; i < rd.row_num(); i++) { std::map<int, unsigned char> row; rd.get_row(i, row); for (auto &e : row) r += str(e.first) + ":" + str((int)e.second) + ","; r += ";"; } rd.close(); return r; }},
  {"mapped file", [](const In &x) { TmpFile f(x.a + x.b); pfi::system::mmapper::mmapper m; S r = str(m.open(f.p)); for (size_t i = 0; i < m.size(); i++) r += hex(S(1, m[i])); m.close(); return r; }},
  {"kmp", [](const In &x) { ps::kmp<S> k(word(x.b).substr(0, 4)); return str(k.find(word(x.a))) + "," + str(k.find(word(x.a), 2)); }},
  {"aho-corasick", [](const In &x) { std::set<S> w; S p = word(x.b) + "ab"; for (size_t i = 0; i + 1 < p.size() && w.size() < 4; i++) w.insert(p.substr(i, 1 + i % 3)); ps::aho_corasick a(std::vector<S>(w.begin(), w.end())); std::vector<std::pair<int, int> > res; a.search(word(x.a), res); S r; for (auto &e : res) r += str(e.first) + ":" + str(e.second) + ","; return r; }},
  {"edit distance", [](const In &x) { return str(ps::edit_distance(word(x.a), word(x.b))) + str(ps::longest_common_subsequence(word(x.a), word(x.b))) + str(ps::longest_increasing_subsequence(x.v)); }},
  {"string utility", [](const In &x) { S t = " " + x.a + "," + x.b + ",\t"; return list(ps::split(t, ',')) + "|" + ps::strip(t) + "|" + ps::lstrip(t) + "|" + ps::rstrip(t) + "|" + list(ps::split(word(x.a), S("ab"))); }},
  {"lru", [](const In &x) { pfi::data::lru<int, S> c(3); for (int v : x.v) { c.set(v % 5, str(v)); if (c.has(v % 3)) c.touch(v % 3); } S r; for (int i = -5; i < 5; i++) r += c.has(i) ? c.get(i) + "," : S("-"); return r; }},
  {"intern", [](const In &x) { pfi::data::intern<S> t; S r; for (int v : x.v) r += str(t.key2id(str(v % 6))) + ","; for (size_t i = 0; i < t.size(); i++) r += t.id2key((int)i) + ";"; return r; }},
  {"fenwick tree", [](const In &x) { pfi::data::fenwick_tree<long long> t(40); for (size_t i = 0; i < x.v.size(); i++) t.increase((int)(x.v[i] & 31), x.v[i] % 100); S r; for (int i = 0; i < 40; i += 3) r += str(t.query(i)) + "," + str(t.query(i / 2, i)) + ","; return r; }},
  {"config file", [](const In &x) { std::istringstream i("[s1]\nkey=" + word(x.a) + "\n[s2]\nk2 = " + word(x.b) + "\n"); TmpFile f(i.str()); pfi::data::config_file cf(f.p); const pfi::data::config_file &k = cf; return k["s1"]["key"] + "|" + k["s2"]["k2"] + "|" + k["none"]["none"]; }},
  {"uri", [](const In &x) { pfi::network::uri u("http://" + word(x.a) + ":" + str(x.w % 60000) + "/" + word(x.b) + "?q=" + word(x.a) + "#f"); return u.scheme() + "|" + u.authority() + "|" + u.path() + "|" + u.query() + "|" + u.fragment() + "|" + str(u); }},
  {"uri escaping", [](const In &x) { S e = pfi::network::uri_encode(x.a + x.b); return e + hex(pfi::network::uri_decode(e)); }},
  {"ipv4", [](const In &x) { pfi::network::ipv4_address a((unsigned char)x.w, (unsigned char)(x.w >> 8), (unsigned char)(x.w >> 16), (unsigned char)(x.w >> 24)); S t = a.to_string(); return t + "|" + pfi::network::ipv4_address(t).to_string() + "|" + pfi::network::ipv4_address(t + "x").to_string(); }},
  {"http header", [](const In &x) { std::istringstream i("Content-Type: " + word(x.a) + "\r\nX-Y: " + word(x.b) + "\r\n\r\n"); pfi::network::http::header h(i); const pfi::network::http::header &k = h; S r = k["content-type"] + "|" + k["x-y"] + "|" + k["none"]; h["Z"] = word(x.b); h.erase("x-y"); for (auto &e : h) r += e.first + "=" + e.second + ";"; return r; }},
  {"cgi input", [](const In &x) { Echo e; S body = "a=" + pfi::network::uri_encode(x.a) + "&b=" + pfi::network::uri_encode(x.b); std::map<S, S> env; env["REQUEST_METHOD"] = x.w & 1 ? "POST" : "GET"; env["QUERY_STRING"] = x.w & 1 ? "" : body; env["CONTENT_TYPE"] = "application/x-www-form-urlencoded"; env["CONTENT_LENGTH"] = str(body.size()); std::istringstream in(x.w & 1 ? body : ""); std::ostringstream out, err; e.exec(in, out, err, env); return out.str(); }},
  {"cgi multipart", [](const In &x) { Echo e; S body = "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\nContent-Type: text/plain\r\n\r\n" + x.a + "\r\n--B\r\nContent-Disposition: form-data; name=\"g\"\r\n\r\n" + word(x.b) + "\r\n--B--\r\n"; std::map<S, S> env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_TYPE"] = "multipart/form-data; boundary=B"; env["CONTENT_LENGTH"] = str(body.size()); std::istringstream in(body); std::ostringstream out, err; e.exec(in, out, err, env); return out.str(); }},
  {"lexical_cast", [](const In &x) { using pfi::lang::lexical_cast; S r = lexical_cast<S>(x.n) + "|" + str(lexical_cast<int>(str(x.n))) + "|" + str(lexical_cast<double>(str(x.n / 8.0))) + "|" + str(lexical_cast<int>((long)x.n)); try { r += str(lexical_cast<int>("x" + x.a)); } catch (const std::bad_cast &) { r += "bad"; } return r; }},
  {"any", [](const In &x) { pfi::lang::any a(x.a), b(x.n); a.swap(b); return str(pfi::lang::any_cast<int>(a)) + pfi::lang::any_cast<S>(b) + (pfi::lang::any_cast<int>(&b) ? "?" : ""); }},
  {"function", [](const In &x) { pfi::lang::function<int(int)> f = pfi::lang::bind(&add, x.n % 1000, pfi::lang::_1); return str(f((int)(x.w % 100))); }},
  {"type name", [](const In &x) { return x.w & 1 ? pfi::lang::get_typename<std::vector<int> >() : pfi::lang::get_typename<Rec>(); }},
  {"ratio", [](const In &x) { typedef pfi::math::ratio::ratio<long long> R; R a(x.n % 1000, 1 + (long long)(x.w % 50)), b(1 + (long long)(x.w % 7), 3); S r = str(a + b) + str(a * b) + str(a - b) + str(a / b); return r; }},
  {"fft", [](const In &x) { std::vector<std::complex<double> > v(8); for (size_t i = 0; i < 8; i++) v[i] = std::complex<double>(x.v.empty() ? x.n % 10 : x.v[i % x.v.size()] % 10, (double)(i * (x.w % 5))); pfi::math::fft(v.begin(), v.end()); S r = list(v); pfi::math::ifft(v.begin(), v.end()); return r + list(v); }},
  {"random numbers", [](const In &x) { pfi::math::random::mtrand r((uint32_t)x.w); S t; for (int i = 0; i < 6; i++) t += str(r.next_int()) + "," + str(r.next_double()) + "," + str(r.next_gaussian()) + ","; std::vector<int> v; pfi::math::random::sample_without_replacement(r, 10, 4, v); return t + list(v); }},
  {"calendar time", [](const In &x) { pfi::system::time::calendar_time t(pfi::system::time::clock_time(x.w % 4000000000ull, (int)(x.w % 1000000))); S r = str(t.year) + "-" + str(t.mon) + "-" + str(t.mday) + " " + str(t.hour) + ":" + str(t.min) + ":" + str(t.sec) + "." + str(t.usec) + " " + str(t.wday) + " " + str(t.yday); return r + str((double)pfi::system::time::clock_time(t)); }},
  {"error message", [](const In &x) { return pfi::system::syscall::get_error_msg((int)(x.w % 100 + 1)) + pfi::system::syscall::get_error_msg((int)(x.w % 1000 + 500)); }},
  {"shared aho-corasick", [](const In &x) { std::vector<std::pair<int, int> > res; sh->aho->search(word(x.a), res); S r; for (auto &e : res) r += str(e.first) + ":" + str(e.second) + ","; return r; }},
  {"shared kmp", [](const In &x) { return str(sh->kmp->find(word(x.a))) + "," + str(sh->kmp->find(word(x.b), 1)); }},
  {"shared json", [](const In &x) { const js::json j = sh->j; S r = shown(j); r += str(js::json_cast<int>(j["n"])) + str(j["a"].size()) + str(j.count("zz")); for (js::json::const_iterator i = j.begin(); i != j.end(); ++i) r += i->first; return r + pretty(j); }},
  {"shared intern", [](const In &x) { const pfi::data::intern<S> &t = sh->in; return str(t.key2id_nogen(str(x.w % 8))) + t.id2key((int)(x.w % t.size())) + str(t.exist_key(str(x.w % 9))); }},
  {"shared uri", [](const In &x) { pfi::network::uri u(*sh->u); return str(u) + sh->u->host() + sh->u->authority(); }},
  {"shared header", [](const In &x) { const pfi::network::http::header &k = sh->h; S r = k[x.w & 1 ? "Content-Type" : "none"] + str(k.has_key("x-y")); for (auto i = k.begin(); i != k.end(); ++i) r += i->first + i->second; return r; }},
  {"shared pointers", [](const In &x) { S r; for (int i = 0; i < 3; i++) { pfi::lang::shared_ptr<S> p = sh->sp, q = p; pfi::lang::weak_ptr<S> w = q; p.reset(); pfi::lang::shared_ptr<S> l = w.lock(), m = sh->wp.lock(); r += (l ? *l : S("gone")) + (m ? *m : S("gone")); } return r; }},
  {"shared any, optional and function", [](const In &x) { pfi::lang::any a = sh->any; pfi::data::optional<S> o = sh->opt; pfi::lang::function<int(int)> f = sh->fn; return pfi::lang::any_cast<S>(a) + *o + str(f(x.n % 1000)); }},
  {"shared type description", [](const In &x) { std::ostringstream o; sh->rep->print(o); return o.str(); }},
  {"shared page", [](const In &x) { std::ostringstream o; sh->tag->render(o); sh->tag->pretty(o, 0); return o.str(); }},
};
S call(const Op &o, const In &x) { try { return o.f(x); } catch (const Fail &f) { throw; } catch (const std::exception &e) { return S("exception ") + e.what(); } }
void child(Src &s, Ctx &c) {
  int nt = (int)s.range(2, 3); size_t fam = s.choose(ops.size()), fam2 = s.coin(1, 4) ? s.choose(ops.size()) : fam; bool same = s.coin(1, 6);
  std::vector<std::vector<std::pair<size_t, In>>> prog(nt);
  auto gen = [&] { In x; x.a = s.bytes(s.size(24)); x.b = s.bytes(s.size(12)); for (auto *p : {&x.a, &x.b}) for (char &ch : *p) if (!ch || ch == '\n' || ch == '\r') ch = 'n'; size_t k = s.choose(5); for (size_t i = 0; i < k; i++) x.v.push_back((int)s.range(0, 2000) - 1000); x.n = (int)s.range(0, 200000) - 100000; x.w = s.u64(); return x; };
  In base = gen();
  for (auto &p : prog) { int n = (int)s.range(1, 3); while (n--) p.push_back({s.coin() ? fam : fam2, same ? base : gen()}); }
  Shared shared; sh = &shared; In x = gen(); bool warm = s.coin();
  bool use[64] = {}; for (auto &p : prog) for (auto &q : p) use[q.first] = true;
  auto uses = [&](const char *n) { for (size_t i = 0; i < ops.size(); i++) if (use[i] && S(ops[i].name).find(n) == 0) return true; return false; };
  if (uses("shared aho")) { std::vector<S> w = {"a", "ab", "bca", "cc"}; shared.aho.reset(new ps::aho_corasick(w)); }
  if (uses("shared kmp")) shared.kmp.reset(new ps::kmp<S>("aba"));
  if (uses("shared json")) shared.j = doc(x);
  if (uses("shared intern")) for (int i = 0; i < 7; i++) shared.in.key2id(str(i));
  if (uses("shared uri")) shared.u.reset(new pfi::network::uri("http://u@h:80/p?q#f"));
  if (uses("shared header")) { shared.h["Content-Type"] = "text"; shared.h["X-Y"] = word(x.a); }
  if (uses("shared pointers")) { shared.sp.reset(new S(x.a)); shared.wp = shared.sp; }
  if (uses("shared any")) { shared.any = pfi::lang::any(x.a); shared.opt = x.b; shared.fn = pfi::lang::bind(&add, 7, pfi::lang::_1); }
  if (uses("shared type")) shared.rep = ser::get_type<std::map<S, std::vector<Small> > >();
  if (uses("shared page")) shared.tag = page(x);
  if (warm) for (auto &p : prog) for (auto &q : p) call(ops[q.first], q.second);
  std::vector<std::vector<S>> got(nt); for (int t = 0; t < nt; t++) got[t].resize(prog[t].size());
  {
    sched::Opt op; op.spurious = op.jumps = false; sched::Session ses(s, c, op);
    for (int t = 0; t < nt; t++) sched::spawn([&, t] { for (size_t i = 0; i < prog[t].size(); i++) { S r = call(ops[prog[t][i].first], prog[t][i].second); sched::Quiet q; got[t][i] = r; } });
    sched::join_all();
  }
  for (int t = 0; t < nt; t++) for (size_t i = 0; i < prog[t].size(); i++) {
    S want = call(ops[prog[t][i].first], prog[t][i].second);
    CHECK(got[t][i] == want, ops[prog[t][i].first].name << ": with " << nt << " threads in such calls at once it gives " << hex(got[t][i]) << ", alone " << hex(want) << " (hexadecimal)");
  }
  if (uses("shared pointers")) CHECK(shared.sp.use_count() == 1, "a shared pointer counts " << shared.sp.use_count() << " owners when the threads that copied it are gone");
}
void at_once(Src &s, Ctx &c) {       // in a process of its own: whatever is set up by a first call is set up here
  pid_t pid = fork();
  if (pid == 0) { try { child(s, c); } catch (const Fail &f) { fail_now(f.msg); } _exit(0); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { c.nt(); NOTE("calls at once in a fresh process"); return; }
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) fail_now(slot_message());
  _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
}
}
namespace pbt {
Suite suite() {
  Suite r; r.property = "C52";
  r.rule = "2-3 threads make up to 3 calls each of the library's text, data, network, mathematics and system functions (55 kinds; mostly all threads the same kind) with generated arguments, on objects of their own or reading one that was made before," SCHED_RULE ", each case in a fresh process, half of them with the very first calls in it; every result must be the one the same call gives alone. Every case is non-trivial: at least two threads call at once.";
  r.props = {{"at_once", at_once, 12000, 300000, false}};
  r.assumptions = {SCHED_ASSUME, "Preemption happens in the library's own code, not inside the C and C++ runtime libraries."};
  return r;
}
}
