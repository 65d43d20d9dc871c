// C50: the system helpers: temporary files, descriptor streams, file sizes, error texts, machine state
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <sys/socket.h>
#include <unistd.h>
#include <system/file.h>
#include <system/syscall.h>
#include <system/sysstat.h>
using namespace pbt; namespace pf = pfi::system::file;
// the files of the kernel that tell the machine's state are replaced by generated ones
static std::string fake_mem, fake_load; static bool faked; static std::string dir;
static const char *redirect(const char *p) { if (faked && p) { if (!strcmp(p, "/proc/meminfo")) return fake_mem.c_str(); if (!strcmp(p, "/proc/loadavg")) return fake_load.c_str(); } return p; }
extern "C" {
FILE *fopen(const char *p, const char *m) { static auto f = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); return f(redirect(p), m); }
FILE *fopen64(const char *p, const char *m) { static auto f = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64"); return f(redirect(p), m); }
int open(const char *p, int fl, ...) { static auto f = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return f(redirect(p), fl, m); }
int open64(const char *p, int fl, ...) { static auto f = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return f(redirect(p), fl, m); }
}
static void scratch() { if (dir.empty()) { const char *t = getenv("PBT_TMP"); dir = std::string(t ? t : "/tmp") + "/s" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); fake_mem = dir + ".mem"; fake_load = dir + ".load"; } }
static std::set<std::string> entries() { std::set<std::string> r; DIR *d = opendir(dir.c_str()); while (dirent *e = readdir(d)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(d); return r; }
static void wipe() { for (auto &x : entries()) unlink((dir + "/" + x).c_str()); }
static std::string slurp(const std::string &f) { std::string r; int fd = open(f.c_str(), O_RDONLY, 0); if (fd < 0) return "(cannot be opened)"; char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
static size_t open_fds() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void spit(const std::string &f, const std::string &d) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t p = 0; while (p < d.size()) { ssize_t r = write(fd, d.data() + p, d.size() - p); if (r <= 0) _exit(70); p += r; } close(fd); }
struct Quiet { int keep; Quiet() { fflush(stderr); keep = dup(2); int n = open("/dev/null", O_WRONLY, 0); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(keep, 2); close(keep); } };
static void temporary(Src &s, Ctx &c) {   // several temporary streams at once, written, read and positioned in any order
  scratch(); wipe(); size_t before = open_fds(); struct F { std::unique_ptr<std::iostream> st; std::string name, data; size_t pos = 0; int last = 0; }; { std::vector<F> v; std::map<std::string, std::string> closed; size_t n = 1 + s.size(s.coin(1, 10) ? 40 : 16); c.nt(n > 4);
    for (size_t t = 0; t < n; t++) switch (v.empty() ? 0 : s.choose(9)) {
      case 0: { std::string pre = dir + "/" + s.over("abX", 4), tm; int kind = (int)s.choose(8); auto was = entries();
          if (kind == 0) { tm = s.over("X", 5); NOTE("template " << show(tm)); std::string keep = tm; std::unique_ptr<std::iostream> p(pf::tmpstream(tm)); CHECK(!p, "a template of " << tm.size() << " characters gives a stream"); c.label("short template"); break; }
          if (kind == 1) { tm = pre + "XXXXXX" + s.pick<std::string>({"a", "XXXXXx", "_", ".tmp"}); NOTE("template " << show(tm)); Quiet q; std::unique_ptr<std::iostream> p(pf::tmpstream(tm)); CHECK(!p, "a template that does not end in XXXXXX gives a stream"); CHECK(entries() == was, "it made a file all the same"); c.label("bad template"); break; }
          if (kind == 2) { tm = dir + "/missing/XXXXXX"; NOTE("template " << show(tm)); std::unique_ptr<std::iostream> p(pf::tmpstream(tm)); CHECK(!p, "a stream in a directory that does not exist"); c.label("no directory"); break; }
          F f; tm = pre + "XXXXXX"; f.name = tm; NOTE("stream " << v.size() << " from " << show(tm)); if (s.coin(1, 8)) { pre = dir + "/"; tm = pre + "XXXXXX"; f.name = "XXXXXX"; c.label("bare template"); int cwd = open(".", O_RDONLY | O_DIRECTORY); CHECK(cwd >= 0 && chdir(dir.c_str()) == 0, "harness: chdir"); f.st.reset(pf::tmpstream(f.name)); bool back = fchdir(cwd) == 0; close(cwd); CHECK(back, "harness: fchdir"); f.name = pre + f.name; } else f.st.reset(pf::tmpstream(f.name)); CHECK(f.st && f.st->good(), "no stream for template " << show(tm)); CHECK(f.name.size() == tm.size() && f.name.compare(0, pre.size(), pre) == 0 && f.name != tm, "the file is called " << show(f.name)); auto now = entries(); CHECK(now.size() == was.size() + 1 && now.count(f.name.substr(dir.size() + 1)), "there is no new file " << show(f.name)); struct stat st; CHECK(!stat(f.name.c_str(), &st) && (st.st_mode & 077) == 0 && st.st_size == 0, "the file is not empty or others may access it"); v.push_back(std::move(f)); break; }
      case 1: case 2: case 3: { F &f = v[s.choose(v.size())]; std::string d = s.coin(1, 8) ? s.blob(s.edge_len(20000)) : s.bytes(s.choose(30)); NOTE("write " << d.size() << " bytes to " << show(f.name.substr(dir.size()))); if (f.last == 1) { f.st->clear(); f.st->seekp((std::streamoff)f.pos); } f.st->write(d.data(), d.size()); CHECK(f.st->good(), "writing fails"); if (f.data.size() < f.pos + d.size()) f.data.resize(f.pos + d.size()); f.data.replace(f.pos, d.size(), d); f.pos += d.size(); f.last = 2; c.label("written", d.size()); break; }
      case 4: { F &f = v[s.choose(v.size())]; size_t p = s.choose(f.data.size() + 1); NOTE("position " << p); f.st->clear(); if (s.coin()) f.st->seekg((std::streamoff)p); else f.st->seekp((std::streamoff)p); CHECK(f.st->good(), "positioning fails"); f.pos = p; f.last = 0; break; }
      case 5: case 6: { F &f = v[s.choose(v.size())]; size_t m = s.coin() ? s.choose(40) : f.data.size() + s.choose(3); NOTE("read " << m << " bytes"); if (f.last == 2) f.st->seekg((std::streamoff)f.pos); std::string b(m, 0), want = f.data.substr(std::min(f.pos, f.data.size()), m); f.st->read(&b[0], m); b.resize(f.st->gcount()); CHECK(b == want, "reading gives " << show(b.substr(0, 60)) << " (" << b.size() << " bytes) instead of " << show(want.substr(0, 60)) << " (" << want.size() << " bytes)"); CHECK(f.st->eof() == (want.size() < m), "end of file is reported wrong"); f.st->clear(); f.pos += b.size(); f.last = 1; c.label("read", b.size()); break; }
      case 7: { F &f = v[s.choose(v.size())]; NOTE("flush"); f.st->clear(); f.st->flush(); CHECK(slurp(f.name) == f.data, "after a flush the file has " << slurp(f.name).size() << " bytes, written were " << f.data.size() << " (or others)"); CHECK(pf::get_file_size(f.name) == (ssize_t)f.data.size(), "the size of the file is given as " << pf::get_file_size(f.name)); if (f.last == 2) f.last = 2; break; }
      default: { size_t k = s.choose(v.size()); NOTE("close " << k); closed[v[k].name] = v[k].data; v.erase(v.begin() + k); } }
    std::map<std::string, std::string> all = closed; for (auto &f : v) all[f.name] = f.data; v.clear(); for (auto &x : all) CHECK(slurp(x.first) == x.second, "the file " << show(x.first.substr(dir.size())) << " does not hold the " << x.second.size() << " bytes written to its stream"); CHECK(entries().size() == all.size(), "the number of files"); }
  CHECK(open_fds() == before, "descriptors are left open"); wipe();
}
static void pipes(Src &s, Ctx &c) {   // a descriptor stream over a connection, one way: everything arrives, in order
  size_t before = open_fds(); int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) throw Fail("no socket pair"); std::string out = s.coin(1, 6) ? s.blob(s.edge_len(30000)) : s.bytes(300), in = s.bytes(300); if (s.coin()) out.clear(); else in.clear(); c.nt(out.size() + in.size() > 1); NOTE("write " << out.size() << " bytes, read " << in.size());
  if (write(fd[1], in.data(), in.size()) != (ssize_t)in.size()) throw Fail("socket pair"); std::string got(in.size(), 0), sent; { pf::fd_stream st(fd[0]); CHECK(st.good(), "a fresh stream is not usable"); if (in.size()) { st.read(&got[0], in.size()); CHECK(st.good() && got == in, "reading gives " << show(got.substr(0, 60))); } for (size_t p = 0; p < out.size();) { size_t n = 1 + s.choose(std::min<size_t>(out.size() - p, 5000)); if (s.coin(1, 4)) st.put(out[p]), n = 1; else st.write(&out[p], n); p += n; if (s.coin(1, 5)) st.flush(); } if (s.coin()) { st.flush(); CHECK(st.good(), "flushing fails"); } }
  char b[8192]; ssize_t n; while ((n = read(fd[1], b, sizeof b)) > 0) sent.append(b, n); close(fd[1]); CHECK(n == 0, "the descriptor is not closed with its stream"); CHECK(sent == out, sent.size() << " bytes arrive of " << out.size() << " written, or others"); CHECK(open_fds() == before, "descriptors are left open");
}
static void sizes(Src &s, Ctx &c) {
  scratch(); wipe(); std::string f = dir + "/f" + s.over("ab \xe3", 5); uint64_t n = s.coin(1, 3) ? s.choose(5000) : s.uedge(38) ; if (n > (1ull << 40)) n = 1ull << 40; bool none = s.coin(1, 6), link = s.coin(1, 5), isdir = s.coin(1, 20); c.nt(n > 0 && !none); NOTE((none ? "no file" : std::to_string(n) + " bytes") << (link ? ", through a link" : "")); 
  if (!none) { int fd = open(f.c_str(), O_RDWR | O_CREAT, 0600); if (fd < 0) throw Fail("scratch file"); if (ftruncate(fd, (off_t)n)) { close(fd); c.label("no file of that size here"); return; } close(fd); c.label(n > 0xffffffffull ? "over 4 GB" : n > 0x7fffffff ? "over 2 GB" : "size", 1); } std::string q = f; if (link) { q = dir + "/link"; if (symlink(f.c_str(), q.c_str())) throw Fail("link"); }
  ssize_t r; { Quiet k; errno = 0; r = pf::get_file_size(q); } if (none) CHECK(r < 0, "a file that does not exist has size " << r); else CHECK(r == (ssize_t)n, "a file of " << n << " bytes has size " << r); if (isdir) { Quiet k; CHECK(pf::get_file_size(dir + "/nothing/x") < 0, "a path without a directory has a size"); } unlink(f.c_str()); wipe();
}
static void errors(Src &s, Ctx &c) { int e = s.coin() ? (int)s.choose(140) : (int)s.i64(); NOTE("error " << e); c.nt(true); std::string want = strerror(e); errno = s.coin() ? 0 : 5; CHECK(pfi::system::syscall::get_error_msg(e) == want, "error " << e << " is called " << show(pfi::system::syscall::get_error_msg(e)) << ", not " << show(want)); errno = e; std::string got = pfi::system::syscall::get_error_msg(); CHECK(got == want, "the current error " << e << " is called " << show(got));
  int left = (int)s.choose(6), calls = 0, r = 0, other = s.coin() ? EAGAIN : 0; auto call = [&] { calls++; if (left-- > 0) { errno = EINTR; return -1; } errno = other; return other ? -1 : 42; }; int times = left; NO_INTR(r, call()); CHECK(calls == times + 1 && r == (other ? -1 : 42), "an interrupted call was made " << calls << " times after " << times << " interruptions and gave " << r); CHECK(SUCCEEDED(r) == (r >= 0) && FAILED(r) == (r < 0), "SUCCEEDED and FAILED"); }
static void machine(Src &s, Ctx &c) {
  scratch(); auto amount = [&] { return s.coin() ? s.choose(1ull << 28) : s.uedge(44); }; uint64_t total = amount(), fr = amount(), cached = amount(); auto line = [&](const std::string &k, uint64_t v) { std::string t = k + ":"; size_t w = s.coin(3, 4) ? 8 : s.choose(3); std::string num = std::to_string(v); t += std::string(1 + (num.size() < w ? w - num.size() : 0), ' '); return t + num + " kB\n"; };
  std::vector<std::string> l = {line("MemTotal", total), line("MemFree", fr)}; for (const char *k : {"MemAvailable", "Buffers"}) if (s.coin()) l.push_back(line(k, amount())); l.push_back(line("Cached", cached)); for (const char *k : {"SwapCached", "Active", "Inactive", "Unevictable", "SwapTotal", "SwapFree", "Dirty", "VmallocTotal", "CmaFree"}) if (s.coin()) l.push_back(line(k, amount())); if (s.coin()) l.push_back("HugePages_Total:       0\n"); if (s.coin(1, 3)) for (size_t i = l.size(), z = std::find_if(l.begin(), l.end(), [](const std::string &x) { return x.compare(0, 7, "Cached:") == 0; }) - l.begin() + 1; i > z + 1; i--) std::swap(l[i - 1], l[z + s.choose(i - z)]);
  std::string mem; for (auto &x : l) mem += x; char b[100]; double la = s.choose(100) / 100.0 + s.pick<int>({0, 1, 7, 99, 1000, 65535}); snprintf(b, sizeof b, "%.2f %.2f %.2f %d/%d %d\n", la, s.choose(9999) / 100.0, s.choose(9999) / 100.0, 1 + (int)s.choose(9), 800, 12345); spit(fake_mem, mem); spit(fake_load, b); NOTE(show(mem) << " " << show(b)); c.nt(true); if (fr > 0x7fffffff) c.label("over 2 TB free");
  faked = true; pfi::system::sysstat::sysstat_ret r{}; int rc = pfi::system::sysstat::get_sysstat(r); faked = false; CHECK(rc == 0, "get_sysstat gives " << rc); auto is = [&](uint64_t got, uint64_t kb) { return got == kb * 1000 || got == kb * 1024; };
  CHECK(std::fabs(r.loadavg - la) < 1e-6, "load average " << r.loadavg << ", the kernel says " << la); CHECK(is(r.total_memory, total), "total memory " << r.total_memory << ", the kernel says " << total << " kB"); CHECK(is(r.free_memory, fr + cached), "free memory " << r.free_memory << ", the kernel says " << fr << " kB free and " << cached << " kB cached");
}
static void really(Src &s, Ctx &c) { c.nt(true); s.choose(2); pfi::system::sysstat::sysstat_ret r{}; CHECK(pfi::system::sysstat::get_sysstat(r) == 0 && r.total_memory > 0 && r.free_memory <= r.total_memory * 1.03 && r.loadavg >= 0, "state of this machine: " << r.total_memory << " " << r.free_memory << " " << r.loadavg); }
Suite pbt::suite() {
  Suite u; u.property = "C50";
  u.rule = "Histories over several temporary-file streams (writes, reads, positioning, flushes, closing) against a model of each file, templates that must be refused, descriptor streams over connections, sparse files of up to a terabyte, error numbers of every kind, and generated contents of the kernel's memory and load files. Non-trivial: more than 4 steps, a non-empty file, or any error or machine state.";
  u.props = {{"temporary", temporary, 6000, 150000, true}, {"pipes", pipes, 3000, 60000, false}, {"sizes", sizes, 3000, 60000, false}, {"errors", errors, 5000, 50000, false}, {"machine", machine, 5000, 100000, false}, {"really", really, 3, 10, false}};
  u.assumptions = {"the kernel publishes memory in kB in /proc/meminfo", "between reading and writing a stream the program positions it, as the C++ standard asks (so a stream over a connection is used one way)"};
  return u;
}
