// P09: omLoadConstantData / omGetExternalConstantAddr / omUnloadConstantData with system-call faults.
#include "mon.hpp"
#include "ledger.hpp"
#include <dirent.h>
#include <sys/stat.h>
extern "C" {
bool omLoadConstantData(void **constAddr, char *fname, int64_t size, int64_t isLE);
void omGetExternalConstantAddr(void **outputAddr, void **baseAddr, int64_t offset);
bool omUnloadConstantData(void **constAddr, int64_t size);
int __real_open(const char *, int, ...); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); ssize_t __real_read(int, void *, size_t); int __real_fstat(int, struct stat *); int __real_close(int); int __real_posix_memalign(void **, size_t, size_t);
static bool on; static int callNo, failAt, failErrno, readMode; static std::string trace; static bool fired;
static bool inj(const char *n) { if (!on) return false; trace += n; trace += ' '; if (callNo++ == failAt) { errno = failErrno; fired = true; return true; } return false; }
int __wrap_open(const char *p, int f, int m) { if (inj("open")) return -1; return __real_open(p, f, m); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (inj("mmap")) return MAP_FAILED; return __real_mmap(a, n, p, f, fd, o); }
int __wrap_munmap(void *a, size_t n) { if (on) trace += "munmap "; return __real_munmap(a, n); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (inj("read")) return -1; if (on && readMode && n > 1) n = 1 + n / (readMode + 1); return __real_read(fd, b, n); }
int __wrap_fstat(int fd, struct stat *s) { if (inj("fstat")) return -1; return __real_fstat(fd, s); }
int __wrap_close(int fd) { if (on) trace += "close "; return __real_close(fd); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (inj("posix_memalign")) return ENOMEM; int r = __real_posix_memalign(p, a, n); return r; }
}
static Mon *M;
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static int maps(const std::string &f) { int n = 0; FILE *p = fopen("/proc/self/maps", "r"); char l[9000]; while (fgets(l, sizeof l, p)) if (strstr(l, f.c_str())) ++n; fclose(p); return n; }
static void oneCase(Rng &r, long idx) {
  static std::string dir; if (dir.empty()) { dir = M->tmp + "/c" + std::to_string(getpid()); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) abort(); }
  std::string fname = fmt("m%ld", idx); { int l = r.chance(1, 8) ? r.in(60, 200) : r.in(0, 10); for (int i = 0; i < l; ++i) fname += "abc .-_é%s"[r.in(0, 10)]; } fname += ".constants.bin";
  int64_t len = r.chance(1, 10) ? 0 : r.chance(1, 4) ? 4096 * r.in(1, 3) + r.in(-1, 1) : r.chance(1, 30) ? r.in(100000, 600000) : r.in(1, 9000);
  int64_t size = r.chance(3, 5) ? len : r.chance(1, 2) ? len - r.in(0, len) : len + r.in(1, 9000); if (r.chance(1, 40)) size = -r.in(1, 100);
  std::vector<unsigned char> bytes(len); for (auto &b : bytes) b = r.next();
  int where = r.in(0, 3); // 0 cwd without env, 1 env dir, 2 env dir but file in cwd, 3 missing
  std::string sub = fmt("%s/d%ld%s", dir.c_str(), idx, r.chance(1, 4) ? "/deep er/x" : r.chance(1, 20) ? ("/" + std::string(200, 'q')).c_str() : "");
  { std::string c = "/"; for (size_t i = 1; i < sub.size(); ++i) { if (sub[i] == '/') mkdir(sub.substr(0, i).c_str(), 0755); } mkdir(sub.c_str(), 0755); }
  std::string at = where == 1 ? sub + "/" + fname : dir + "/" + fname;
  bool exists = where != 3; if (exists) { FILE *f = fopen(at.c_str(), "wb"); fwrite(bytes.data(), 1, len, f); fclose(f); }
  bool isDir = !exists && r.chance(1, 3); if (isDir) mkdir((dir + "/" + fname).c_str(), 0755);
  if (where == 2) { /* same name, other content and length in the designated directory */ }
  if (where == 0 || where == 3) unsetenv("OM_CONSTANT_PATH"); else setenv("OM_CONSTANT_PATH", (where == 1 && r.chance(1, 4) ? sub + "/" : sub).c_str(), 1);
  // a decoy with other bytes where the loader must not look
  std::string decoy; if (where == 1 && r.chance(1, 2)) { decoy = dir + "/" + fname; FILE *f = fopen(decoy.c_str(), "wb"); for (int64_t i = 0; i < len; ++i) fputc(~bytes[i], f); fclose(f); }
  bool reachable = where == 0 || where == 1; int64_t isLE = r.chance(7, 8);
  bool must = reachable && size > 0 && size <= len && isLE;
  void **addr = (void **)malloc(sizeof(void *)); *addr = nullptr; char *fn = strdup(fname.c_str());
  failAt = r.chance(1, 2) ? r.in(0, 4) : -1; static const int errs[] = {ENOENT, EACCES, ENOMEM, EMFILE, EIO, EINTR}; failErrno = errs[r.in(0, 5)]; callNo = 0; trace.clear(); fired = false; readMode = r.in(0, 3);
  Ledger::reset(); bool allocFail = r.chance(1, 5); if (allocFail) Ledger::failAt = r.in(0, 2);
  int f0 = fds();
  std::string d = fmt("len %ld size %ld where %d isLE %ld fail@%d errno %d alloc-fail %d name '%s'", (long)len, (long)size, where, (long)isLE, failAt, failErrno, (int)allocFail, fname.c_str());
  on = true; Ledger::on = true; bool ok = omLoadConstantData(addr, fn, size, isLE); Ledger::on = false; on = false;
  bool fault = fired || Ledger::failed; M->ev(); M->sample(d + " calls: " + trace); if (fired) M->count("injected_syscall_faults"); if (Ledger::failed) M->count("injected_alloc_faults");
  d += " -> " + trace;
  if (ok && !must) M->violate("load-succeeded-wrongly", d);
  if (!ok && must && !fault) M->violate("load-failed", d);
  if (fds() != f0) M->violate("descriptor-leak", d);
  for (int i = 0; i < Ledger::nLive; ++i) if (Ledger::liveSz[i] >= fname.size() && Ledger::liveSz[i] < 4096 && Ledger::liveSz[i] != 1024) { M->violate("path-leak", d); break; }
  uint64_t h = mixh(hashStr(trace), mixh(ok, mixh(where, isLE))); M->distinct(mixh(h, mixh(size > len, fired ? failErrno : 0)));
  if (!ok) { M->count("failed_loads"); if (*addr) M->violate("pointer-after-failure", d); if (maps(fname.substr(0, 40))) M->violate("mapping-leak", d); }
  else if (must) {
    M->count("good_loads"); if (memcmp(*addr, bytes.data(), size)) M->violate("content", d);
    void *was = *addr; bool again = omLoadConstantData(addr, fn, size, isLE); M->ev(); if (!again || *addr != was) M->violate("reload", d); if (fds() != f0) M->violate("descriptor-leak", d + " reload");
    // constants at offsets
    for (int q = 0; q < 4; ++q) { int64_t o = r.in(0, size - 1); void *out = nullptr; omGetExternalConstantAddr(&out, addr, o); M->ev(); M->count("addresses"); if (out != (char *)was + o) M->violate("address", d); void *prev = out; omGetExternalConstantAddr(&out, addr, r.in(0, size - 1)); if (out != prev) M->violate("address-changed", d); }
    // the same file again through another variable
    void *second = nullptr; if (!omLoadConstantData(&second, fn, size, isLE) || memcmp(second, bytes.data(), size)) M->violate("second-variable", d);
    if (!omUnloadConstantData(addr, size)) M->violate("unload", d); if (*addr) M->violate("pointer-after-unload", d);
    if (omUnloadConstantData(addr, size)) M->violate("double-unload", d);
    if (memcmp(second, bytes.data(), size)) M->violate("unload-other", d);
    // unload, then load again
    if (!omLoadConstantData(addr, fn, size, isLE) || memcmp(*addr, bytes.data(), size)) M->violate("load-after-unload", d); omUnloadConstantData(addr, size);
    if (!omUnloadConstantData(&second, size)) M->violate("unload", d);
    if (maps(fname.substr(0, 40))) M->violate("mapping-leak", d + " after unload");
  }
  { void *o = nullptr; omGetExternalConstantAddr(nullptr, &o, 0); omGetExternalConstantAddr(&o, nullptr, 0); if (o) M->violate("null-arguments", d); if (omLoadConstantData(nullptr, fn, size, 1) || omUnloadConstantData(nullptr, 1)) M->violate("null-arguments", d); }
  unlink(at.c_str()); if (!decoy.empty()) unlink(decoy.c_str()); if (isDir) rmdir((dir + "/" + fname).c_str()); rmdir(sub.c_str()); free(fn); free(addr); unsetenv("OM_CONSTANT_PATH");
}
int main(int argc, char **argv) { Mon m; M = &m; M->run("constants", atol(argv[1]), oneCase); return m.finish(); }
