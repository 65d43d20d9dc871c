#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <system/mmapper.h>
using namespace pbt;
using pfi::system::mmapper::mmapper;
// the system calls the mapper makes are routed through here: bookkeeping and injected faults
static bool watch; static std::set<int> fds; static std::map<void *, size_t> maps; static int fail_at = -1, calls; static int fail_errno; static std::string bad;
static bool inject() { return calls++ == fail_at; }
extern "C" {
int __real_open(const char *, int, ...); int __real_close(int); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_fstat(int, struct stat *);
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (watch && inject()) { errno = fail_errno; return -1; } int r = __real_open(p, fl, mode); if (watch && r >= 0) fds.insert(r); return r; }
int __wrap_close(int fd) { if (watch) { if (!fds.erase(fd)) bad = "closes descriptor " + std::to_string(fd) + ", which it does not own"; } return __real_close(fd); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (watch && inject()) { errno = fail_errno == EINTR ? ENOMEM : fail_errno; return MAP_FAILED; } void *r = __real_mmap(a, n, p, f, fd, o); if (watch && r != MAP_FAILED) maps[r] = n; return r; }
int __wrap_munmap(void *a, size_t n) { if (watch) { auto it = maps.find(a); if (it == maps.end()) bad = "unmaps memory it does not own"; else { if (it->second != n) bad = "unmaps " + std::to_string(n) + " of " + std::to_string(it->second) + " bytes"; maps.erase(it); } } return __real_munmap(a, n); }
int __wrap_fstat(int fd, struct stat *st) { if (watch && inject()) { errno = fail_errno; return -1; } return __real_fstat(fd, st); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return __wrap_open(p, fl, mode); }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
}
struct Guard { Guard() { fds.clear(); maps.clear(); bad.clear(); fail_at = -1; calls = 0; watch = true; } ~Guard() { watch = false; } };
static std::string dir;
static void put(const std::string &f, const std::string &d) { int fd = __real_open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); size_t p = 0; while (p < d.size()) { ssize_t r = ::write(fd, d.data() + p, d.size() - p); if (r <= 0) _exit(70); p += r; } __real_close(fd); }
static std::string get(const std::string &f) { std::string r; int fd = __real_open(f.c_str(), O_RDONLY); char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) r.append(b, n); __real_close(fd); return r; }
struct State { int file = -1; size_t size = 0; };   // what a mapper should be showing
static void history(Src &s, Ctx &c) {
  if (dir.empty()) { const char *t = getenv("PBT_TMP"); dir = std::string(t ? t : "/tmp") + "/m" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); }
  const size_t NF = 3, NM = 3; std::vector<std::string> name, data;
  for (size_t i = 0; i < NF; i++) { name.push_back(dir + "/f" + std::to_string(i)); size_t n = s.coin(1, 12) ? s.pick<size_t>({65535, 65536, 65537, 70000, 131072}) : s.coin(1, 5) ? s.pick<size_t>({4095, 4096, 4097, 8192}) : s.coin(1, 3) ? 1 + s.choose(9000) : 1 + s.size(100); std::string d(n, 'a'); uint64_t x = s.choose(256); for (size_t k = 0; k < n; k++) d[k] = (char)(x + k * 7 + (k >> 8)); data.push_back(d); unlink(name[i].c_str()); put(name[i], d); }
  std::string empty = dir + "/empty"; put(empty, "");
  size_t ops = 1 + s.size(20); c.nt(ops >= 3); bool opened = false;
  Guard g; {
    mmapper m[NM]; State st[NM];
    auto check = [&](const char *after, size_t open = 0) {
      CHECK(bad.empty(), after << ": " << bad);
      for (size_t i = 0; i < NM; i++) {
        const mmapper &k = m[i]; if (st[i].file < 0) { CHECK(!k.is_open(), after << ": mapper " << i << " is open"); CHECK(k.size() == 0, after << ": mapper " << i << " is not open but has size " << k.size()); CHECK(k.begin() == k.end() && k.cbegin() == k.cend(), after << ": mapper " << i << " is not empty"); continue; }
        open++; const std::string &d = data[st[i].file]; CHECK(k.is_open(), after << ": mapper " << i << " is not open"); CHECK(k.size() == st[i].size, after << ": mapper " << i << " has size " << k.size() << ", not " << st[i].size); CHECK((size_t)(k.end() - k.begin()) == k.size() && k.cbegin() == k.begin() && k.cend() == k.end(), after << ": iterators of mapper " << i);
        CHECK(std::string(k.begin(), k.end()) == d, after << ": mapper " << i << " does not show the bytes of file " << st[i].file); size_t p = s.choose(d.size()); CHECK(k[p] == d[p] && &k[p] == k.begin() + p, after << ": byte " << p);
      }
      CHECK(maps.size() == open, after << ": " << maps.size() << " mappings for " << open << " open mappers"); CHECK(fds.size() == open || fds.size() == 0, after << ": " << fds.size() << " descriptors for " << open << " open mappers");
    };
    for (size_t k = 0; k < ops; k++) {
      size_t i = s.choose(NM), j = s.choose(NM); int op = (int)s.choose(9);
      switch (op) {
        case 0: case 1: { int f = (int)s.choose(NF); NOTE("m" << i << ".open(f" << f << ")"); int r = m[i].open(name[f]); CHECK(r == 0, "opening a file returns " << r); if (st[i].file >= 0) c.label("re-opened while open"); st[i].file = f; st[i].size = data[f].size(); opened = true; check("open"); break; }
        case 2: { NOTE("m" << i << ".close()"); int r = m[i].close(); CHECK(r == 0, "close returns " << r); st[i] = State(); check("close"); break; }
        case 3: { NOTE("m" << i << " = move(m" << j << ")"); if (i == j) break; m[i] = std::move(m[j]); st[i] = st[j]; st[j] = State(); c.label("moved"); check("move assignment"); break; }
        case 4: { NOTE("construct from move(m" << i << "), move back"); mmapper t(std::move(m[i])); State a = st[i]; st[i] = State(); check("move construction", a.file >= 0); CHECK(t.is_open() == (a.file >= 0) && t.size() == a.size, "moved-to mapper"); if (a.file >= 0) CHECK(std::string(t.begin(), t.end()) == data[a.file], "the moved-to mapper does not show the file"); if (s.coin()) { m[i] = std::move(t); st[i] = a; CHECK(!t.is_open(), "moved-from mapper is open"); check("moving back"); } break; }
        case 5: { NOTE("swap m" << i << " m" << j); if (s.coin()) m[i].swap(m[j]); else std::swap(m[i], m[j]); std::swap(st[i], st[j]); check("swap"); break; }
        case 6: if (st[i].file >= 0) { size_t p = s.choose(st[i].size); char v = (char)s.choose(256); NOTE("m" << i << "[" << p << "] = " << (int)v); if (s.coin()) m[i][p] = v; else m[i].begin()[p] = v; data[st[i].file][p] = v; CHECK(get(name[st[i].file]) == data[st[i].file], "the write did not reach the file"); c.label("written through"); check("write"); } break;
        case 7: { int what = (int)s.choose(3); std::string f = what == 0 ? dir + "/none" : what == 1 ? dir : empty; NOTE("m" << i << ".open(" << (what == 0 ? "missing file" : what == 1 ? "directory" : "empty file") << ")"); int r = m[i].open(f); CHECK(r < 0 || (r == 0 && what == 2), "opening what cannot be mapped returns " << r); if (r == 0) { m[i].close(); st[i] = State(); } else c.label("failed open"); check("failed open"); break; }
        default: { int f = (int)s.choose(NF); fail_at = calls + (int)s.choose(3); fail_errno = s.pick<int>({EACCES, EMFILE, ENOMEM, EINTR}); int at = fail_at, before = calls; NOTE("m" << i << ".open(f" << f << ") with fault " << fail_errno << " at call " << fail_at - calls); int r = m[i].open(name[f]); bool hit = calls > at; fail_at = -1; (void)before; if (r == 0) { st[i].file = f; st[i].size = data[f].size(); opened = true; } if (hit && fail_errno != EINTR) { CHECK(r < 0, "a failing system call is reported as " << r); c.label("injected fault"); } if (!hit) CHECK(r == 0, "open fails without a fault"); check("open with an injected fault"); }
      }
    }
  }
  CHECK(bad.empty(), "destruction: " << bad); CHECK(maps.empty(), maps.size() << " mappings left after destruction"); CHECK(fds.empty(), fds.size() << " descriptors left after destruction");
  for (size_t i = 0; i < NF; i++) CHECK(get(name[i]) == data[i], "contents of file " << i << " after everything was closed"); c.label(opened ? "with a mapping" : "without a mapping");
}
Suite pbt::suite() {
  Suite u; u.property = "C42";
  u.rule = "Histories of up to 20 operations on three mappers and three files (1 byte to 128 KB, page-size edges): open, re-open, close, move construction and assignment, both swaps, writes through the mapping, opening missing, empty and directory paths, and opens with an injected failure of any system call; after every step contents, size and the bookkeeping of descriptors and mappings are compared with a model. Non-trivial: at least 3 operations.";
  u.props = {{"history", history, 20000, 300000, true}};
  u.assumptions = {"descriptors may be closed as early as after mapping", "an empty file cannot be mapped"};
  return u;
}
