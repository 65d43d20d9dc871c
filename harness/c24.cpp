// C24: form submissions, in process (exec), as a CGI and a FastCGI program, and through the stand-alone HTTP server
#include "pbt.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcgiapp.h>
#include <iostream>
#include <memory>
#include <netinet/in.h>
#include <sstream>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <stdlib.h>
#include <time.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <network/cgi.h>
#include <network/cgi/cgi.h>
#include <network/cgi/fcgi.h>
#include <network/cgi/server.h>
#include <network/cgi/xhtml_cgi.h>
#include <network/socket.h>
using namespace pbt; using namespace pfi::network; namespace cg = pfi::network::cgi;
typedef std::map<std::string, std::vector<std::string>> Multi;
struct Seen { int runs = 0; std::string method; std::map<std::string, std::string> env, query, file; Multi multi; std::map<std::string, http::header> info; };
static Seen seen;
static std::string out_body, out_status, out_loc; static bool out_type;
struct Prog : cg::cgi, cg::cloner<Prog> {
  void run(std::ostream &o) { seen.runs++; seen.method = method; seen.env = env; seen.query = query; seen.multi = multi_query; seen.file = file; seen.info = file_info; if (out_status.size()) head["Status"] = out_status; if (out_loc.size()) head["Location"] = out_loc; if (out_type) head["Content-Type"] = "image/x"; o.write(out_body.data(), out_body.size()); }
};
struct Sub { std::string method, qs, type, body; bool has_len = true; Multi multi; std::map<std::string, std::string> last, file, ftype; std::vector<std::string> order; };
static void addf(Sub &u, const std::string &k, const std::string &v) { u.multi[k].push_back(v); u.last[k] = v; }
static std::string esc(Src &s, const std::string &v) { std::string r; for (unsigned char x : v) { bool must = x == '&' || x == '=' || x == '+' || x == '%' || x == '#' || x < 0x21 || x > 0x7e || strchr("\\\"<>[]^`{|}", x); if (x == ' ' && s.coin()) r += '+'; else if (must || s.coin(1, 6)) { char b[4]; snprintf(b, 4, s.coin() ? "%%%02X" : "%%%02x", x); r += b; } else r += (char)x; } return r; }
static std::string word(Src &s) { switch (s.choose(5)) { case 0: return s.pick<std::string>({"a", "b", "name", "a b", ""}); case 1: return s.bytes(s.choose(5)); case 2: return s.utf8(1 + s.choose(3)); default: { std::string r; size_t n = s.choose(8); for (size_t i = 0; i < n; i++) r += s.ch("ab&=+%;\"\\ /?#\r\n.-_~"); return r; } } }
static std::string urlenc(Src &s, Ctx &c, Sub &u) {
  std::string r; size_t n = s.size(s.coin(1, 60) ? 150 : 8); for (size_t i = 0; i < n; i++) { std::string k = word(s), v = word(s); if (s.coin(1, 150)) v = s.blob(s.edge_len(5000), s.coin() ? nullptr : "ab"); bool bare = s.coin(1, 8) && !k.empty(); if (s.coin(1, 6) && !bare) { size_t m = s.choose(40); for (size_t j = 0; j < m; j++) v += (char)s.choose(256); } if (i) r += '&'; r += esc(s, k); if (bare) { v = ""; c.label("name only"); } else { r += '='; std::string e = esc(s, v); if (s.coin(1, 8)) { e += "="; v += "="; } r += e; } addf(u, k, v); }
  c.nt(n > 1); c.label("fields", n); return r;
}
static bool bnd_ok(char x) { return isalnum((unsigned char)x) || strchr("'()+_,-./:=?", x); }
static std::string boundary(Src &s) { std::string r; switch (s.choose(4)) { case 0: r = "----WebKitFormBoundary"; break; case 1: r = s.pick<std::string>({"a", "-", "--", "aa", "-a", "aba", "---------------------------1"}); break; default: break; } size_t n = s.coin() ? s.choose(4) : s.choose(30); for (size_t i = 0; i < n; i++) r += s.ch("aabA1-_.'+"); if (r.empty()) r = "x"; return r; }
static std::string data(Src &s, const std::string &b) {
  std::string r; size_t n = s.size(6);
  for (size_t i = 0; i < n; i++) switch (s.choose(9)) { case 0: r += "\r\n"; break; case 1: r += "\n"; break; case 2: r += "--"; break; case 3: r += "\r\n--" + b.substr(0, s.choose(b.size())); break; case 4: r += "\n--" + b.substr(0, b.size() - 1); break; case 5: r += b.substr(0, s.choose(b.size())); break; case 6: r += s.ch("\r\n-:\0a"); break; case 7: r += s.bytes(s.choose(20)); break; default: r += "text=1&" + s.utf8(s.choose(3)); }
  if (s.coin(1, 20)) { size_t m = s.coin() ? s.choose(9000) : s.edge_len(70000); for (size_t i = 0; i < m; i++) r += (char)(i * 31 + (i >> 6)); }
  for (size_t p; (p = r.find(b)) != std::string::npos;) r.erase(p, 1);
  return r;
}
static std::string label(Src &s) { std::string r; size_t n = 1 + s.size(6); for (size_t i = 0; i < n; i++) r += s.coin(1, 6) ? s.ch(";=, :/'%&+") : s.coin(1, 8) ? (char)(0x80 + s.choose(128)) : s.ch("abcXY09._-"); return r; }
static std::string quoted_type(Src &s, const std::string &kind, const std::string &b) { bool q = s.coin(1, 3); for (char x : b) q |= !isalnum((unsigned char)x) && !strchr("-_.'+", x); return kind + "; " + (s.coin(1, 6) ? "charset=utf-8; " : "") + "boundary=" + (q ? "\"" + b + "\"" : b) + (s.coin(1, 6) ? "; x=y" : ""); }
static std::string multipart(Src &s, Ctx &c, Sub &u, const std::string &b, int depth) {
  std::string r; if (s.coin(1, 5)) { r += s.pick<std::string>({"preamble\r\n", "\r\n", "a\r\n--\r\nb\r\n"}); if (r.find(b) != std::string::npos) r = ""; }
  size_t n = s.size(6); c.nt(n > 0); c.label("parts", n);
  for (size_t i = 0; i < n; i++) {
    r += "--" + b + (s.coin(1, 10) ? " \t" : "") + "\r\n"; int kind = (int)s.choose(depth ? 3 : 4); std::string nl = "\r\n", cd = s.pick<std::string>({"Content-Disposition", "content-disposition", "CONTENT-DISPOSITION"}), ct, d;
    if (kind == 3) {   // several files under one field, as a nested multipart
      std::string ib = boundary(s); Sub v = u; std::string sub = multipart(s, c, v, ib, depth + 1); if (("\n" + sub).find("\n--" + b) != std::string::npos) sub.clear(), v = u; u = v; if (sub.empty()) sub = "--" + (ib = "NONE" + b) + "--";
      r += cd + ": form-data; name=\"" + std::string("files") + "\"\r\n" + "Content-Type: " + quoted_type(s, "multipart/mixed", ib) + "\r\n\r\n" + sub + "\r\n"; c.label("nested"); continue; }
    std::string name = label(s), fn; d = data(s, b); std::vector<std::string> attrs;
    if (depth) { kind = 1; r += cd + ": " + s.pick<std::string>({"attachment"}); fn = label(s); attrs = {"filename=\"" + fn + "\""}; u.file[fn] = d; }
    else if (kind == 0 || kind == 2) { r += cd + ": form-data"; attrs = {"name=\"" + name + "\""}; addf(u, name, d); }
    else { r += cd + ": form-data"; fn = label(s); attrs = {"name=\"" + name + "\"", "filename=\"" + fn + "\""}; addf(u, name, fn); u.file[fn] = d; c.label("files"); }
    if (s.coin(1, 6)) attrs.push_back("x=\"1\""); if (s.coin(1, 4)) std::swap(attrs[0], attrs.back());
    for (auto &a : attrs) { std::string t = a; if (s.coin(1, 6)) for (size_t k = 0; k < t.size() && t[k] != '='; k++) t[k] = (char)toupper((unsigned char)t[k]); r += ";" + std::string(s.coin(3, 4) ? " " : s.coin() ? "" : "  ") + t; }
    r += nl; if (!fn.empty()) u.ftype[fn] = ""; if (s.coin()) { ct = s.pick<std::string>({"text/plain", "image/png", "application/octet-stream", "text/html; charset=utf-8"}); r += "Content-Type: " + ct + nl; if (!fn.empty()) u.ftype[fn] = ct; }
    if (s.coin(1, 8)) r += "X-Other: 1" + nl; r += nl + d + nl;
  }
  r += "--" + b + "--" + (s.coin(2, 3) ? "\r\n" : ""); if (depth == 0 && s.coin(1, 6)) r += "\r\nepilogue\r\n"; return r;
}
static std::string show_map(const std::map<std::string, std::string> &m) { std::string r = "{"; for (auto &x : m) r += show(x.first) + ":" + show(x.second.substr(0, 60)) + (x.second.size() > 60 ? "...(" + std::to_string(x.second.size()) + ")" : "") + " "; return r + "}"; }
static void compare(const Sub &u, const Seen &g, const char *how) {
  CHECK(g.runs == 1, how << ": the program ran " << g.runs << " times"); CHECK(g.method == u.method, how << ": method " << g.method);
  CHECK(g.query == u.last, how << ": single values are " << show_map(g.query) << ", submitted " << show_map(u.last));
  for (auto &m : u.multi) { auto p = g.multi.find(m.first); CHECK(p != g.multi.end() && p->second == m.second, how << ": the values of " << show(m.first) << " are not the " << m.second.size() << " submitted ones in order"); } CHECK(g.multi.size() == u.multi.size(), how << ": extra fields in the multi-valued map");
  CHECK(g.file == u.file, how << ": files are " << show_map(g.file) << ", submitted " << show_map(u.file)); CHECK(g.info.size() == u.file.size(), how << ": file information for " << g.info.size() << " files");
  for (auto &x : u.ftype) { auto p = g.info.find(x.first); CHECK(p != g.info.end() && p->second["content-type"] == x.second, how << ": content type of file " << show(x.first) << " is " << (p == g.info.end() ? std::string("missing") : show(p->second["content-type"])) << ", submitted " << x.second); }
}
static Sub submission(Src &s, Ctx &c) {
  Sub u; switch (s.choose(4)) {
  case 0: u.method = "GET"; u.qs = urlenc(s, c, u); c.label("query string"); break;
  case 1: u.method = "POST"; u.body = urlenc(s, c, u); u.type = s.pick<std::string>({"application/x-www-form-urlencoded", "", "application/x-www-form-urlencoded; charset=UTF-8"}); if (s.coin(1, 4)) u.qs = "ignored=1"; c.label("urlencoded body"); break;
  default: { u.method = "POST"; std::string b = boundary(s); u.body = multipart(s, c, u, b, 0); u.type = quoted_type(s, "multipart/form-data", b); c.label("multipart body"); } }
  return u;
}
static std::map<std::string, std::string> env_of(const Sub &u) { std::map<std::string, std::string> e; e["REQUEST_METHOD"] = u.method; e["QUERY_STRING"] = u.qs; if (u.method == "POST") e["CONTENT_LENGTH"] = std::to_string(u.body.size()); if (u.type.size()) e["CONTENT_TYPE"] = u.type; return e; }
// the answer of exec: header lines, an empty line, the body
static void answer(const std::string &o, std::map<std::string, std::string> &h, std::string &b) { size_t p = o.compare(0, 1, "\n") == 0 ? 0 : o.find("\n\n"); CHECK(p != std::string::npos, "answer without an empty line: " << show(o.substr(0, 100))); std::istringstream is(o.substr(0, p)); std::string l; while (std::getline(is, l)) { size_t q = l.find(": "); CHECK(q != std::string::npos, "answer header line " << show(l)); h[l.substr(0, q)] = l.substr(q + 2); } b = o.substr(p == 0 ? 1 : p + 2); }
static void submit(Src &s, Ctx &c) {   // a history of submissions on one program object
  Prog p; size_t n = 1 + s.choose(3); size_t limit = 4 << 20;
  for (size_t i = 0; i < n; i++) {
    Sub u = submission(s, c); auto env = env_of(u); std::string in = u.body; bool refuse = false;
    if (u.method == "POST") {
      if (s.coin(1, 6)) { limit = (size_t)std::max<int64_t>(0, (int64_t)u.body.size() + s.range(-2, 2)); p.set_max_content_length(limit); c.label("limit at the size"); }
      if (u.body.size() > limit) { refuse = true; c.label("too long"); }
      if (u.body.size() && s.coin(1, 8)) { in.resize(s.choose(u.body.size())); refuse = true; c.label("too short"); } else if (s.coin(1, 4)) in += "extra bytes&a=b";
      if (!refuse && u.type.find("multipart") == 0 && s.coin(1, 12)) { env["CONTENT_TYPE"] = "multipart/form-data"; refuse = true; c.label("no boundary"); }
    }
    out_body = s.coin() ? "" : data(s, "zzzzz"); out_status = s.coin(1, 4) ? "404 Not Found" : ""; out_loc = ""; out_type = s.coin();
    NOTE(u.method << " type " << show(env["CONTENT_TYPE"]) << (refuse ? " (to refuse) " : " ") << show(u.qs) << " " << show(in.substr(0, 1500)));
    seen = Seen(); std::istringstream is(in); std::ostringstream os, er; p.exec(is, os, er, env); std::map<std::string, std::string> h; std::string b; answer(os.str(), h, b);
    if (refuse) { CHECK(seen.runs == 0, "a submission to be refused reached the program"); CHECK(atoi(h["Status"].c_str()) >= 400, "a refused submission is answered with status " << show(h["Status"])); }
    else { compare(u, seen, "exec"); CHECK(seen.env == env || [&] { auto e = env; for (auto &x : seen.env) if (!e.count(x.first) && x.second.empty()) e[x.first] = ""; return e == seen.env; }(), "the environment differs"); CHECK(b == out_body, "answer body of " << out_body.size() << " bytes comes out as " << b.size()); CHECK(h.count("Status") == !out_status.empty() && h["Status"] == out_status, "status " << show(h["Status"])); CHECK(h["Content-Type"] == (out_type ? "image/x" : "text/plain; charset=utf-8"), "type " << show(h["Content-Type"])); }
  }
}
static void hostile(Src &s, Ctx &c) {   // damaged multipart bodies: terminates, and the program only sees bytes of the submission
  Sub u; std::string b = boundary(s), body; { Ctx d; body = multipart(s, d, u, b, 0); } size_t k = 1 + s.choose(4); c.nt(body.size() > 20);
  for (size_t i = 0; i < k && body.size(); i++) switch (s.choose(4)) { case 0: body.resize(s.choose(body.size())); break; case 1: body.erase(s.choose(body.size()), 1 + s.choose(5)); break; case 2: body[s.choose(body.size())] = s.ch("\r\n-\";=: \0a"); break; default: body.insert(s.choose(body.size() + 1), s.pick<std::string>({"\r\n", "\n\n", "--", "\"", ";", "--" + b, "\r\n--" + b + "\r\n"})); }
  u.method = "POST"; u.body = body; u.type = s.pick<std::string>({"multipart/form-data; boundary=" + b, "multipart/form-data; boundary=" + b, "multipart/form-data; boundary=", "multipart/form-data; boundary=\"", "multipart/form-data", "multipart/; boundary;boundary=" + b});
  NOTE(show(u.type) << " " << show(body)); Prog p; out_body = "ok"; out_status = out_loc = ""; out_type = false; seen = Seen(); std::istringstream is(body); std::ostringstream os, er; p.exec(is, os, er, env_of(u)); std::map<std::string, std::string> h; std::string a; answer(os.str(), h, a); CHECK(seen.runs + (h.count("Status") ? 1 : 0) == 1, "the program ran " << seen.runs << " times and the status is " << h["Status"]);
  for (auto &f : seen.file) CHECK(body.find(f.second) != std::string::npos, "file content " << show(f.second.substr(0, 60)) << " does not occur in the submission"); auto bare = [](std::string x) { x.erase(std::remove_if(x.begin(), x.end(), [](char q) { return q == ' ' || q == '\t' || q == '\r' || q == '\n'; }), x.end()); return x; };  /* a part's header may be folded over lines: the white space between may change */
  for (auto &f : seen.query) CHECK(body.find(f.second) != std::string::npos || bare(body).find(bare(f.second)) != std::string::npos, "value " << show(f.second.substr(0, 60)) << " does not occur in the submission");
}
// CGI and FastCGI: what the web server hands over is generated; the streams are libfcgi's own, over generated pieces
static size_t page_elems; static std::string page_text; static int page_cfg;
static void page(cg::xhtml_builder &builder) { using namespace pfi::network::cgi; html__ body__ for (size_t i = 0; i < page_elems; i++) { if (i % 3 == 2) br__; else div__ { attr__("id") = std::to_string(i); text__(page_text); } } }
struct XProg : cg::xhtml_cgi { void run() { seen.runs++; seen.method = method; seen.env = env; seen.query = query; seen.multi = multi_query; seen.file = file; seen.info = file_info; if (page_cfg & 1) dtd = ""; if (page_cfg & 2) xmltag = ""; if (page_cfg & 4) head["Content-Type"] = "image/x"; if (out_status.size()) head["Status"] = out_status; page(builder); } };
static std::string page_body() { std::ostringstream o; cg::xhtml_builder b; page(b); if (!(page_cfg & 2)) o << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; if (!(page_cfg & 1)) o << "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n"; for (auto &x : b.get()) x->pretty(o); o << "\n"; return o.str(); }
struct Piped { FCGX_Stream f; std::string data; size_t at = 0, piece = 1; std::vector<unsigned char> buf; };
static void fill(FCGX_Stream *f) { Piped *p = (Piped *)f->data; size_t n = std::min(p->piece, p->data.size() - p->at); if (!n) { f->isClosed = 1; f->stop = f->rdNext; return; } memcpy(p->buf.data(), p->data.data() + p->at, n); p->at += n; f->rdNext = f->stopUnget = p->buf.data(); f->stop = f->wrNext = p->buf.data() + n; }
static void drain(FCGX_Stream *f, int) { Piped *p = (Piped *)f->data; p->data.append(p->buf.begin(), p->buf.begin() + (f->wrNext - p->buf.data())); f->wrNext = p->buf.data(); f->rdNext = f->stop = p->buf.data() + p->piece; }
static void open_pipe(Piped &p, bool reader, size_t piece) { p.piece = piece; p.buf.assign(piece, 0); memset(&p.f, 0, sizeof p.f); p.f.isReader = reader; p.f.data = &p; p.f.fillBuffProc = fill; p.f.emptyBuffProc = drain; if (reader) p.f.rdNext = p.f.wrNext = p.f.stop = p.f.stopUnget = p.buf.data(); else { p.f.wrNext = p.buf.data(); p.f.rdNext = p.f.stop = p.buf.data() + piece; } }
struct Gate { std::vector<std::string> env; std::vector<char *> ptr; std::string in; Piped i, o, e; size_t ipiece, opiece; };
static std::vector<std::function<void(Gate &)>> gate_next; static std::function<void(Gate &)> gate_done; static std::unique_ptr<Gate> gate; static size_t gate_at; static bool gate_cgi; static std::string gate_bad;
static char **env_ptr(Gate &g) { g.ptr.clear(); for (auto &x : g.env) g.ptr.push_back(&x[0]); g.ptr.push_back(nullptr); return g.ptr.data(); }
extern "C" {
int __wrap_FCGX_IsCGI(void) { return gate_cgi; }
int __wrap_FCGX_Accept(FCGX_Stream **in, FCGX_Stream **out, FCGX_Stream **err, FCGX_ParamArray *envp);
void __wrap_FCGX_Finish(void) { if (!gate) return; drain(&gate->o.f, 1); auto g = std::move(gate); gate_done(*g); }
}
int __wrap_FCGX_Accept(FCGX_Stream **in, FCGX_Stream **out, FCGX_Stream **err, FCGX_ParamArray *envp) {
  __wrap_FCGX_Finish(); if (gate_at == gate_next.size()) return -1; gate.reset(new Gate); gate_next[gate_at++](*gate); gate->i.data = gate->in; open_pipe(gate->i, true, gate->ipiece); open_pipe(gate->o, false, gate->opiece); open_pipe(gate->e, false, 64); *in = &gate->i.f; *out = &gate->o.f; *err = &gate->e.f; *envp = env_ptr(*gate); return 0;
}
extern char **environ;
struct Streams { std::streambuf *i, *o; char **e; std::istringstream is; std::ostringstream os; Streams(const std::string &in, char **env) : i(std::cin.rdbuf()), o(std::cout.rdbuf()), e(environ), is(in) { std::cin.clear(); std::cin.rdbuf(is.rdbuf()); std::cout.rdbuf(os.rdbuf()); environ = env; } ~Streams() { std::cin.rdbuf(i); std::cin.clear(); std::cout.rdbuf(o); environ = e; } };
static void gateway(Src &s, Ctx &c) {
  size_t n = 1 + s.size(5); bool fast = s.coin(2, 3), xhtml = s.coin(1, 3); gate_cgi = fast && s.coin(1, 6); gate_at = 0; gate_next.clear(); gate.reset(); Prog p; XProg x; cg::cgi &prog = xhtml ? (cg::cgi &)x : p; Sub u; std::map<std::string, std::string> env; bool refuse = false; size_t answered = 0; c.label(fast ? gate_cgi ? "FastCGI program run as CGI" : "FastCGI" : "CGI"); if (xhtml) c.label("xhtml program");
  auto ask = [&](Gate &g) {
    u = submission(s, c); env = env_of(u); refuse = false; g.in = u.body; if (u.body.size() && s.coin(1, 8)) { g.in.resize(s.choose(u.body.size())); refuse = true; c.label("too short"); } else if (u.method == "POST" && s.coin(1, 4)) g.in += "extra bytes&a=b";
    size_t k = s.size(5); for (size_t i = 0; i < k; i++) { std::string key = s.over("ABXY_", 6), v = s.coin() ? s.over("=a b;", 10) : s.bytes(10); for (char &ch : v) if (!ch) ch = '0'; if (!env.count("E" + key)) env["E" + key] = v; } if (s.coin(1, 4)) env["EMPTY"] = "";
    for (auto &e : env) g.env.push_back(e.first + "=" + e.second); for (size_t i = g.env.size(); i > 1; i--) std::swap(g.env[i - 1], g.env[s.choose(i)]); g.ipiece = s.coin() ? 1 + s.choose(20) : s.coin() ? 1 + s.choose(3000) : 8192; g.opiece = s.coin() ? 1 + s.choose(20) : s.coin() ? 1 + s.choose(3000) : 8192;
    out_body = s.coin(1, 4) ? "" : data(s, "zzzzz"); out_status = s.coin(1, 4) ? "404 Not Found" : ""; out_loc = ""; out_type = s.coin(); page_elems = s.size(4); page_text = s.over("ab<&> ", 8); page_cfg = (int)s.choose(8); seen = Seen(); NOTE(u.method << (refuse ? " (to refuse) " : " ") << show(u.qs) << " " << show(g.in.substr(0, 600)) << " read in pieces of " << g.ipiece << ", written in pieces of " << g.opiece);
  };
  auto check = [&](const std::string &o, const char *how) {
    answered++; std::map<std::string, std::string> h; std::string b; answer(o, h, b); if (refuse) { CHECK(seen.runs == 0, "a submission to be refused reached the program"); CHECK(atoi(h["Status"].c_str()) >= 400, "a refused submission is answered with status " << show(h["Status"])); return; }
    compare(u, seen, how); for (auto &e : env) CHECK(seen.env.count(e.first) && seen.env[e.first] == e.second, how << ": " << e.first << " is " << show(seen.env[e.first]) << ", handed over as " << show(e.second)); for (auto &e : seen.env) CHECK(env.count(e.first) || e.second.empty(), how << ": " << show(e.first) << " was not handed over");
    std::string want = xhtml ? page_body() : out_body, type = xhtml ? page_cfg & 4 ? "image/x" : "text/html; charset=utf-8" : out_type ? "image/x" : "text/plain; charset=utf-8"; CHECK(b == want, how << ": the answer is " << show(b.substr(0, 300)) << " (" << b.size() << " bytes), the program wrote " << show(want.substr(0, 300)) << " (" << want.size() << " bytes)"); CHECK(h.count("Status") == !out_status.empty() && h["Status"] == out_status, "status " << show(h["Status"])); CHECK(h["Content-Type"] == type, "type " << show(h["Content-Type"]));
  };
  std::string failed; gate_done = [&](Gate &g) { if (failed.empty()) try { check(g.o.data, "FastCGI"); } catch (const Fail &f) { failed = f.msg; } };
  if (fast && !gate_cgi) { for (size_t i = 0; i < n; i++) gate_next.push_back(ask); cg::run_fcgi(prog).run(); gate_done = [](Gate &) {}; gate.reset(); if (failed.size()) throw Fail(failed); CHECK(answered == n, answered << " of " << n << " requests were answered"); }
  else for (size_t i = 0; i < n; i++) { Gate g; ask(g); std::string o; { Streams t(g.in, env_ptr(g)); if (fast) cg::run_fcgi(prog).run(); else cg::run_cgi(prog).run(); o = t.os.str(); } check(o, "CGI"); }
}
static uint16_t port() { static uint16_t p = [] { pfi::lang::shared_ptr<server_socket> k(new server_socket); if (!k->create(0)) throw Fail("cannot listen"); std::streambuf *o = std::cout.rdbuf(nullptr); auto *r = new cg::run_server(*new Prog, k, 1); r->run(false); std::cout.rdbuf(o); return k->port(); }(); return p; }
struct NoPort {};
static std::string talk(const std::string &req, size_t cut) {
  int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(fd, (sockaddr *)&a, sizeof a)) { int e = errno; close(fd); if (e == EADDRNOTAVAIL) throw NoPort(); throw Fail("cannot connect to the server"); }
  timeval tv{30, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); for (size_t p = 0; p < req.size();) { size_t n = p == 0 && cut ? std::min(cut, req.size()) : req.size() - p; ssize_t w = send(fd, req.data() + p, n, MSG_NOSIGNAL); if (w <= 0) break; p += w; } std::string r; char b[4096]; ssize_t n; while ((n = recv(fd, b, sizeof b, 0)) > 0) r.append(b, n); close(fd); if (n < 0) throw Fail("the server does not answer"); return r;
}
static void served(Src &s, Ctx &c) {
  port(); size_t n = 1 + s.choose(3);
  for (size_t i = 0; i < n; i++) {
    Sub u = submission(s, c); bool refuse = false; if (u.method == "GET" && u.qs.size() > 3000) { u.method = "POST"; u.body.swap(u.qs); u.type = "application/x-www-form-urlencoded"; }   // longer than the server takes a request line
    out_body = s.coin(1, 4) ? "" : data(s, "zzzzz"); out_status = s.coin(1, 4) ? s.pick<std::string>({"404 Not Found", "500 a b c", "201 Created"}) : ""; out_loc = s.coin(1, 6) ? "http://x/y" : ""; out_type = s.coin();
    std::string path = "/" + s.pick<std::string>({"", "a", "a/b", "x%20y"}), hv = s.pick<std::string>({"v", "a b", "\xff=;", "1"}), in = u.body; std::string req = u.method + " " + path + (u.qs.empty() ? "" : "?" + u.qs) + " HTTP/1.1\r\nHost: h\r\nX-Field: " + hv + "\r\n"; if (u.method == "POST") { size_t len = u.body.size(); if (s.coin(1, 10)) { len = (4u << 20) + 1 + s.choose(100); refuse = true; c.label("too long"); } req += "Content-Length: " + std::to_string(len) + "\r\n"; if (u.type.size()) req += "Content-Type: " + u.type + "\r\n"; if (refuse) in = ""; }
    req += "\r\n" + in; NOTE(show(req.substr(0, 1500)) << " answer " << out_body.size() << " bytes " << out_status); seen = Seen(); std::string r = talk(req, s.coin() ? 1 + s.choose(req.size()) : 0); size_t e = r.find("\r\n\r\n"); CHECK(e != std::string::npos, "answer is " << show(r.substr(0, 200))); std::string head = r.substr(0, e + 2), b = r.substr(e + 4); int code = 0; CHECK(sscanf(head.c_str(), "HTTP/1.1 %d", &code) == 1, "status line " << show(head.substr(0, 50)));
    if (refuse) { CHECK(seen.runs == 0, "a submission to be refused reached the program"); CHECK(code >= 400, "a refused submission is answered with status " << code); continue; }
    compare(u, seen, "server"); CHECK(b == out_body, "answer body of " << out_body.size() << " bytes arrives as " << show(b.substr(0, 100)));
    std::string want = "HTTP/1.1 " + (out_status.size() ? out_status : out_loc.size() ? "302 Found" : "200 OK") + "\r\n"; CHECK(head.compare(0, want.size(), want) == 0, "status line " << show(head.substr(0, want.size())) << ", expected " << show(want)); std::string ty = std::string("\r\nContent-Type: ") + (out_type ? "image/x" : "text/plain; charset=utf-8") + "\r\n"; CHECK(head.find(ty) != std::string::npos, "headers " << show(head)); if (out_loc.size()) CHECK(head.find("\r\nLocation: " + out_loc + "\r\n") != std::string::npos, "headers " << show(head));
    CHECK(seen.env["REQUEST_METHOD"] == u.method && seen.env["QUERY_STRING"] == u.qs && seen.env["SCRIPT_NAME"] == path && seen.env["REQUEST_URI"] == path + (u.qs.empty() ? "" : "?" + u.qs) && seen.env["REMOTE_ADDR"] == "127.0.0.1" && seen.env["HTTP_X-FIELD"] == hv && seen.env["SERVER_PORT"] == std::to_string(port()), "environment " << show_map(seen.env));
  }
}
static void served_(Src &s, Ctx &c) { try { served(s, c); } catch (const NoPort &) { c.label("no local port left"); } }
// a program started from its command line, as a server or as a CGI program, in a process of its own
static std::string echo_of(const std::string &m, const std::map<std::string, std::string> &q) { std::string r = m + "\n"; for (auto &x : q) r += x.first + "\n" + x.second + "\n"; return r; }
struct Told : cg::cgi, cg::cloner<Told> { void run(std::ostream &o) { if (query.count("sleep")) ::usleep(300000); std::string r = echo_of(method, query); o.write(r.data(), r.size()); } };
static void leave(int st, void *) { _exit(st); }
struct Child { pid_t pid = -1; int out = -1; int st = 0; bool over = false;
  bool ended(double limit) { for (double t = 0; !over && t < limit; t += 0.002) { if (waitpid(pid, &st, WNOHANG) == pid) { over = true; break; } ::usleep(2000); } return over; }
  ~Child() { if (pid > 0 && !over) { ::kill(pid, SIGKILL); waitpid(pid, &st, 0); } if (out >= 0) ::close(out); } };
static bool free_port(int p) { int fd = socket(AF_INET, SOCK_STREAM, 0), on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p); bool ok = !::bind(fd, (sockaddr *)&a, sizeof a) && !::listen(fd, 1); ::close(fd); return ok; }
static int dial(int p) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(fd, (sockaddr *)&a, sizeof a)) { ::close(fd); return -1; } timeval tv{30, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); return fd; }
static void started(Src &s, Ctx &c) {
  static int turn = 0; int port = 0; for (int i = 0; i < 200 && !port; i++) { int q = 12000 + (int)(((unsigned)getpid() * 131 + (unsigned)turn++ * 7) % 18000); if (free_port(q)) port = q; } if (!port) { c.label("no port"); return; }
  std::vector<std::string> args = {"prog"}; int want_port = 8080, threads = 1; double limit = 10; enum { Serve, Refuse, Help, Cgi, Thrown } expect = Cgi; bool ctor = s.coin(1, 4), server = ctor || s.coin(3, 4), taken = false;
  auto opt = [&](char sh, const std::string &lg, const std::string &v) { switch (s.choose(4)) { case 0: args.push_back(std::string("-") + sh); args.push_back(v); break; case 1: args.push_back(std::string("-") + sh + v); if (v.empty()) args.push_back(v); break; case 2: args.push_back("--" + lg + "=" + v); break; default: args.push_back("--" + lg); args.push_back(v); } };
  if (server) { expect = Serve; want_port = port; threads = 1 + (int)s.choose(4); limit = s.pick<double>({0.15, 0.3, 10, 0, 0.2}); taken = s.coin(1, 6);
    if (!ctor) { std::vector<int> order = {0, 1, 2, 3}; for (size_t i = 4; i > 1; i--) std::swap(order[i - 1], order[s.choose(i)]); int bad = s.coin(1, 4) ? (int)s.choose(3) : -1; if (bad >= 0) { expect = bad == 2 ? Help : Refuse; taken = false; }
      for (int o : order) switch (o) { case 0: if (s.coin(1, 5)) opt('p', "port", "1234"); opt('p', "port", bad == 0 ? s.pick<std::string>({"0", "65536", "70000", "-1", "abc", ""}) : std::to_string(port)); break; case 1: if (bad == 1) opt('t', "thread", s.pick<std::string>({"0", "-3", "1025", "x", "99999"})); else if (threads > 1 || s.coin()) opt('t', "thread", std::to_string(threads)); break; case 2: if (limit != 10 || s.coin()) { char b[20]; snprintf(b, 20, "%g", limit); opt('o', "timeout", b); } break; default: args.push_back(s.coin() ? "-s" : "--server"); if (bad == 2) args.push_back(s.coin() ? "-h" : "--help"); } if (s.coin(1, 6)) args.push_back("word"); } }
  else if (s.coin(1, 4)) { expect = Help; args.push_back(s.coin() ? "-h" : "--help"); }
  int hold = -1; struct Fd { int &f; ~Fd() { if (f >= 0) ::close(f); } } fdh{hold}; if (taken) { hold = socket(AF_INET, SOCK_STREAM, 0); int on = 1; setsockopt(hold, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); if (::bind(hold, (sockaddr *)&a, sizeof a) || ::listen(hold, 1)) { c.label("no port"); return; } expect = Thrown; }
  std::string all; for (auto &a : args) all += a + " "; NOTE((ctor ? "server on port P, " + std::to_string(threads) + " threads, limit " + std::to_string(limit) : "started as " + all) << (taken ? " (port in use)" : "")); c.nt(); std::map<std::string, std::string> q; std::string qs; size_t nq = s.choose(3); for (size_t i = 0; i < nq; i++) { std::string k = s.over("abc", 3) + "k", v = s.over("xyz", 4); q[k] = v; qs += (i ? "&" : "") + k + "=" + v; }
  bool direct = server && s.coin(); Child k; int pp[2]; if (pipe(pp)) throw Fail("harness: pipe"); fflush(nullptr); k.pid = fork();
  if (k.pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(pp[1], 1); ::close(pp[0]); ::close(pp[1]); int nul = ::open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 2); if (nul > 2) ::close(nul); on_exit(leave, nullptr); setenv("REQUEST_METHOD", "GET", 1); setenv("QUERY_STRING", qs.c_str(), 1); std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr); try { Told p; if (ctor) { cg::run_server r(p, (uint16_t)port, threads, limit); r.run(); } else if (direct) { cg::run_server r(p, (int)args.size(), av.data()); r.run(); } else { cg::run_server_or_cgi r(p, (int)args.size(), av.data()); r.run(); } } catch (const std::runtime_error &) { _exit(41); } catch (...) { _exit(42); } std::cout.flush(); _exit(40); }
  ::close(pp[1]); k.out = pp[0]; auto code = [&] { return WIFEXITED(k.st) ? WEXITSTATUS(k.st) : 1000 + WTERMSIG(k.st); }; auto output = [&] { std::string r; char b[4096]; ssize_t n; while ((n = ::read(k.out, b, sizeof b)) > 0) r.append(b, (size_t)n); return r; };
  if (expect == Refuse || expect == Help) { CHECK(k.ended(20), "a program with wrong options, or asked for help, goes on"); CHECK(code() < 40, "it ends with status " << code()); CHECK(output().find("\n\n") == std::string::npos, "the program ran"); c.label(expect == Help ? "help" : "wrong options"); return; }
  if (expect == Thrown) { CHECK(k.ended(20), "a server on a port in use goes on"); CHECK(code() == 41, "a server on a port in use ends with status " << code() << ", not with an exception"); c.label("port in use"); return; }
  if (expect == Cgi) { CHECK(k.ended(20), "a CGI program does not end"); CHECK(code() == 40, "a CGI program ends with status " << code()); std::map<std::string, std::string> h; std::string b; answer(output(), h, b); CHECK(b == echo_of("GET", q), "the CGI program wrote " << show(b)); c.label("CGI"); return; }
  int fd = -1; for (int i = 0; i < 5000 && fd < 0; i++) { if (k.ended(0.001)) break; fd = dial(want_port); if (fd < 0) ::usleep(2000); } if (fd < 0 && k.over && code() == 41 && !free_port(want_port)) { c.label("no port"); return; } CHECK(fd >= 0, "the server does not listen on port " << want_port << (k.over ? "; it ended with status " + std::to_string(code()) : ""));
  std::vector<int> idle; struct Fds { std::vector<int> &v; ~Fds() { for (int f : v) ::close(f); } } fds{idle}; auto ask = [&](int f, const std::string &query) { std::string r = "GET /?" + query + " HTTP/1.1\r\nHost: h\r\n\r\n"; if (::send(f, r.data(), r.size(), MSG_NOSIGNAL) < 0) throw Fail("the server closed the connection"); }; auto reply = [&](int f) { std::string r; char b[4096]; ssize_t n; while ((n = recv(f, b, sizeof b, 0)) > 0) r.append(b, (size_t)n); ::close(f); if (n < 0 && errno != ECONNRESET) throw Fail("the server does not answer"); size_t e = r.find("\r\n\r\n"); CHECK(e != std::string::npos, "the answer is " << show(r)); return r.substr(e + 4); };
  auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; };
  ask(fd, qs); CHECK(reply(fd) == echo_of("GET", q), "another answer");
  if (limit > 0 && limit < 1) {   // a connection that sends nothing is given up after the limit, and its thread serves again
    double t0 = now(); size_t m = (size_t)threads + s.choose(2); for (size_t i = 0; i < m; i++) { int f = dial(want_port); if (f >= 0) idle.push_back(f); } int f = dial(want_port); CHECK(f >= 0, "cannot connect"); ask(f, qs); CHECK(reply(f) == echo_of("GET", q), "another answer"); double d = now() - t0; CHECK(d >= limit * 0.9, "answered after " << d << " s though each of the " << threads << " threads had an idle connection and the limit is " << limit); CHECK(d < 15, "idle connections hold the server for " << d << " s, the limit is " << limit); c.label("limit");
  } else { size_t m = (size_t)threads - 1; for (size_t i = 0; i < m; i++) { int f = dial(want_port); if (f >= 0) idle.push_back(f); } if (m) ::usleep(20000); int f = dial(want_port); CHECK(f >= 0, "cannot connect"); double t0 = now(); ask(f, qs); CHECK(reply(f) == echo_of("GET", q), "another answer"); CHECK(now() - t0 < 8, "with " << m << " idle connections and " << threads << " threads, a request waits " << now() - t0 << " s"); if (m) { pollfd pf{idle[0], POLLIN, 0}; if (limit == 0) CHECK(::poll(&pf, 1, 100) == 0, "an idle connection is closed though there is no limit"); } c.label("threads", (uint64_t)threads); }
  CHECK(!k.ended(0.001), "the server ended");
}
Suite pbt::suite() {
  Suite u; u.property = "C24";
  u.rule = "Histories of submissions (query string, URL-encoded body, multipart body with nested multiparts) generated as lists of fields and files, rendered with random escaping, boundaries, header forms and data that holds fragments of the boundary, run through one program object, as a CGI and a FastCGI program (with pages built as XHTML in a third of the cases; FastCGI data arrives and leaves in pieces) and through the stand-alone server; also lengths at and over the limit, short input and damaged multipart bodies. Programs started from a generated command line, in a process of their own, as a server (port, threads, time limit) or a CGI program. Non-trivial: more than one field, or a multipart with a part.";
  u.props = {{"submit", submit, 20000, 600000, true}, {"hostile", hostile, 15000, 600000, true}, {"gateway", gateway, 15000, 400000, true}, {"served", served_, 2000, 30000, false}, {"started", started, 60, 1200, false}};
  u.assumptions = {"a request line given to the server has less than 3500 bytes", "names and file names in multipart headers hold no quote, backslash or line break", "a boundary does not occur in the data, in names or in preambles"};
  return u;
}
