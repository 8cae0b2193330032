// Allocation ledger: link with -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
}
struct Ledger {
  static bool on; static long failAt, nAlloc, nFree; static bool failed;
  static void *live[65536]; static size_t liveSz[65536]; static int nLive;   // allocated while on, not yet freed
  static void *watch[4096]; static int nWatch; static int watchFrees[4096];
  static void reset() { nLive = 0; nWatch = 0; nAlloc = nFree = 0; failAt = -1; failed = false; }
  static void add(void *p, size_t n) { if (p && nLive < 65536) { live[nLive] = p; liveSz[nLive++] = n; } }
  static bool del(void *p) { for (int i = nLive - 1; i >= 0; --i) if (live[i] == p) { live[i] = live[nLive - 1]; liveSz[i] = liveSz[--nLive]; return true; } return false; }
  static int watchBuf(void *p) { watch[nWatch] = p; watchFrees[nWatch] = 0; return nWatch++; }
  static int frees(void *p) { for (int i = nWatch - 1; i >= 0; --i) if (watch[i] == p) return watchFrees[i]; return -1; }
};
bool Ledger::on = false; long Ledger::failAt = -1, Ledger::nAlloc = 0, Ledger::nFree = 0; bool Ledger::failed = false;
void *Ledger::live[65536]; size_t Ledger::liveSz[65536]; int Ledger::nLive = 0;
void *Ledger::watch[4096]; int Ledger::nWatch = 0; int Ledger::watchFrees[4096];
extern "C" {
static inline bool injectFail() { if (!Ledger::on) return false; if (Ledger::failAt >= 0 && Ledger::nAlloc == Ledger::failAt) { Ledger::nAlloc++; Ledger::failed = true; return true; } Ledger::nAlloc++; return false; }
void *__wrap_malloc(size_t n) { if (injectFail()) return nullptr; void *p = __real_malloc(n); if (Ledger::on) Ledger::add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (injectFail()) return nullptr; void *p = __real_calloc(a, b); if (Ledger::on) Ledger::add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (injectFail()) return nullptr; void *p = __real_realloc(q, n); if (Ledger::on) { Ledger::del(q); Ledger::add(p, n); } return p; }
void __wrap_free(void *p) {
  if (Ledger::on && p) {
    Ledger::nFree++;
    for (int i = Ledger::nWatch - 1; i >= 0; --i) if (Ledger::watch[i] == p) { Ledger::watchFrees[i]++; if (Ledger::watchFrees[i] == 1) break; return; /* double free: recorded, not executed */ }
    Ledger::del(p);
    // Watched buffers are kept (quarantined by the harness) so that a wrong free is observed, not executed.
    for (int i = Ledger::nWatch - 1; i >= 0; --i) if (Ledger::watch[i] == p) return;
  }
  __real_free(p);
}
}
struct Sut { Sut() { Ledger::on = true; } ~Sut() { Ledger::on = false; } };
#define SUT(...) ([&]() -> decltype(auto) { Sut s_; return __VA_ARGS__; }())
