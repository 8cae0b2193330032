// Monitor library of the C++ harnesses: seeded cases run in forked children so that a
// crash, sanitizer report or hang of one case is attributed to it and the rest still run.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
extern "C" int __lsan_do_recoverable_leak_check(void);
#include <sanitizer/asan_interface.h>
#endif
#endif

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) {}
  uint64_t next() { // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int64_t in(int64_t lo, int64_t hi) { // inclusive
    return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1));
  }
  bool chance(int num, int den) { return (int64_t)(next() % den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
};
inline uint64_t mixh(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; return h ^ (h >> 32);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
  return h;
}
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }

struct Mon {
  static constexpr size_t SLOTS = 1 << 20;
  struct Shared { volatile long cur; volatile long doneCases; volatile long distinct; volatile long samples; uint64_t slots[SLOTS]; };
  Shared *sh;
  int outfd = -1;
  uint64_t seed = 1; int shard = 0, shards = 1; bool thorough = false;
  std::string tmp, only; long onlyCase = -1;
  std::string suite; long cur = -1; bool child = false;
  std::map<std::string, long> cnt; long evs = 0;
  std::map<std::string, int> reported;

  Mon() {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const char *o = getenv("MON_OUT");
    outfd = o ? open(o, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644) : dup(1);
    if (outfd >= 0 && outfd < 100) { int f = fcntl(outfd, F_DUPFD_CLOEXEC, 200); if (f >= 0) { close(outfd); outfd = f; } }
    auto g = [](const char *k, long d) { const char *v = getenv(k); return v && *v ? atol(v) : d; };
    seed = g("MON_SEED", 1); shard = g("MON_SHARD", 0); shards = g("MON_SHARDS", 1);
    const char *t = getenv("MON_TIER"); thorough = t && !strcmp(t, "thorough");
    tmp = getenv("MON_TMP") ? getenv("MON_TMP") : "/tmp";
    if (const char *c = getenv("MON_CASE")) { // suite:index
      only = c; auto p = only.rfind(':');
      if (p != std::string::npos) { onlyCase = atol(only.c_str() + p + 1); only.resize(p); }
    }
  }
  void line(const std::string &s) { std::string t = s + "\n"; ssize_t r = write(outfd, t.data(), t.size()); (void)r; }
  static std::string clean(std::string s) {
    for (char &c : s) if ((unsigned char)c < 32) c = ' ';
    if (s.size() > 1500) s.resize(1500);
    return s;
  }
  void flush() {
    if (evs) line("EV\t" + std::to_string(evs));
    for (auto &k : cnt) line("CNT\t" + k.first + "\t" + std::to_string(k.second));
    evs = 0; cnt.clear();
  }
  void ev(long n = 1) { evs += n; }
  void count(const std::string &k, long n = 1) { cnt[k] += n; }
  void sample(const std::string &s) {
    if (__sync_fetch_and_add(&sh->samples, 1) < 3) line("SAMPLE\t" + clean(s));
  }
  // a distinct, non-trivial case or state, identified by a hash
  void distinct(uint64_t h) {
    if (h == 0) h = 1;
    size_t i = h % SLOTS;
    for (size_t k = 0; k < 64; ++k, i = (i + 1) % SLOTS) {
      uint64_t e = sh->slots[i];
      if (e == h) return;
      if (e == 0 && __sync_bool_compare_and_swap(&sh->slots[i], 0, h)) { __sync_fetch_and_add(&sh->distinct, 1); return; }
      if (sh->slots[i] == h) return;
    }
  }
  void violate(const std::string &key, const std::string &detail) {
    if (reported[key]++ >= 5) return;
    line("VIOL\t" + clean(key) + "\t" + clean(detail) + "\t" + suite + ":" + std::to_string(cur));
  }
  void inconclusive(const std::string &s) { line("INC\t" + clean(s)); }

  using Fn = std::function<void(Rng &, long)>;
  // Run cases [0,n) of a suite; this shard's share of them, in forked children.
  void run(const std::string &name, long n, const Fn &f, int caseTimeout = 60, long batch = 0, bool leak = true) {
    suite = name;
    if (!only.empty() && only != name) return;
    std::vector<long> mine;
    for (long i = shard; i < n; i += shards) if (onlyCase < 0 || i == onlyCase) mine.push_back(i);
    if (batch <= 0) batch = std::max<long>(1, std::min<long>(2000, (long)mine.size() / 4 + 1));
    size_t pos = 0; int crashes = 0;
    while (pos < mine.size()) {
      size_t end = std::min(mine.size(), pos + (size_t)batch);
      sh->cur = pos;
      std::string log = tmp + "/case-" + std::to_string(getpid()) + ".log";
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        child = true; setpgid(0, 0);
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (!getenv("MON_SHOW")) { dup2(fd, 1); dup2(fd, 2); } close(fd);
        for (size_t k = pos; k < end; ++k) {
          sh->cur = k; cur = mine[k];
          Rng r(mixh(mixh(seed, hashStr(name)), (uint64_t)mine[k]));
          f(r, mine[k]);
        }
        flush();
#ifdef MON_ASAN
        if (leak && __lsan_do_recoverable_leak_check()) { _exit(78); }
#endif
        _exit(0);
      }
      long last = -1; time_t since = time(nullptr); int st = 0; bool hang = false;
      while (true) {
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) break;
        if (sh->cur != last) { last = sh->cur; since = time(nullptr); }
        else if (time(nullptr) - since > caseTimeout) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(1000);
      }
      kill(-p, SIGKILL);
      size_t at = sh->cur;
      if (hang) {
        // once more, alone and with twice the time, before calling it a hang
        cur = mine[at];
        if (hangs(f, name, mine[at], caseTimeout * 2)) line("VIOL\thang:" + suite + "\tcase does not end within " + std::to_string(caseTimeout * 2) + "s\t" + suite + ":" + std::to_string(cur));
        pos = at + 1; if (++crashes > 10) break;
        continue;
      }
      int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
      if (rc != 0) {
        static int kept = 0; std::string keep = log + "." + std::to_string(kept++);
        rename(log.c_str(), keep.c_str());
        line("CRASH\t" + suite + ":" + std::to_string(mine[std::min(at, mine.size() - 1)]) + "\t" + std::to_string(rc) + "\t" + keep);
        if (rc == 78) { pos = end; if (++crashes > 10) break; continue; }
        if (++crashes > 25) { line("NOTE\ttoo many crashes in " + suite + ", rest of it skipped"); break; }
        pos = at + 1; continue;
      }
      pos = end;
    }
    flush();
  }
  bool hangs(const Fn &f, const std::string &name, long idx, int t) {
    pid_t p = fork();
    if (p == 0) {
      child = true; setpgid(0, 0);
      int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
      int o = open("/dev/null", O_WRONLY); outfd = o; cur = idx;
      Rng r(mixh(mixh(seed, hashStr(name)), (uint64_t)idx));
      f(r, idx); _exit(0);
    }
    int st; time_t t0 = time(nullptr);
    while (waitpid(p, &st, WNOHANG) != p) {
      if (time(nullptr) - t0 > t) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); return true; }
      usleep(10000);
    }
    return false;
  }
  int finish() {
    flush();
    line("DIS\t" + std::to_string((long)sh->distinct));
    line("DONE");
    return 0;
  }
};

inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
template <class C> std::string str(const C &v) {
  std::string s = "["; bool first = true;
  for (auto &x : v) { if (!first) s += ","; first = false; s += std::to_string(x); }
  return s + "]";
}
