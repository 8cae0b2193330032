// P14: crashes injected into mock models during signal-protected runs.
#include "mon.hpp"
#include <atomic>
#include <errno.h>
#include <thread>
#include "src/Runtime/ExecutionSession.hpp"
using namespace onnx_mlir; using std::string;
static Mon *M; static int action; static OMTensorList *okList; static string bfile;
static volatile int zero; static volatile int sink;
extern "C" {
__attribute__((visibility("default"))) void mock_event(const char *, const char *) {}
static __attribute__((noinline)) void crash(int a, int depth) {
  volatile char frame[64]; frame[0] = depth; if (depth > 0) { crash(a, depth - 1); sink = frame[0]; return; }
  switch (a) {
  case 1: *(volatile int *)(intptr_t)zero = 1; break;                      // SIGSEGV
  case 2: { int fd = open(bfile.c_str(), O_RDWR | O_CREAT, 0600); char *p = (char *)mmap(nullptr, 4096, PROT_READ, MAP_SHARED, fd, 0); close(fd); sink = *(volatile char *)p; break; } // SIGBUS
  case 3: sink = 7 / zero; break;                                           // SIGFPE
  case 4: __builtin_trap(); break;                                          // SIGILL
  case 5: abort(); break;                                                   // SIGABRT
  case 6: raise(SIGSEGV); break; case 7: raise(SIGBUS); break; case 8: raise(SIGFPE); break; case 9: raise(SIGILL); break; case 10: raise(SIGABRT); break;
  case 11: kill(getpid(), SIGABRT); break;
  }
}
__attribute__((visibility("default"))) OMTensorList *mock_run(const char *, const char *, OMTensorList *) {
  if (action == 0) { return okList; } if (action < 0) { errno = -action; return nullptr; }
  crash(action % 100, action / 100); errno = 5; return nullptr; }
}
static const int sigOf[] = {0, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGABRT};
struct KSA { unsigned long h, flags, restorer, mask; }; // what the kernel really has
#include <sys/syscall.h>
static std::vector<string> disp() { std::vector<string> v; for (int s = 1; s < 65; ++s) { if (s == 32 || s == 33) { v.push_back(""); continue; } KSA k{}; syscall(SYS_rt_sigaction, s, nullptr, &k, 8); v.push_back(fmt("sig%d handler %lx flags %lx mask %lx", s, k.h, k.flags & ~0x04000000ul, k.mask)); } return v; }
static string maskStr() { sigset_t s; pthread_sigmask(SIG_BLOCK, nullptr, &s); string t; for (int i = 1; i < 65; ++i) if (sigismember(&s, i) == 1) t += fmt(" %d", i); return t; }
static void h1(int) {} static void h2(int, siginfo_t *, void *) {}
static void body(Rng &r, long idx, const string &lib, bool onMain) {
  ExecutionSession s(lib, "NONE"); std::unique_ptr<ExecutionSession> t; if (r.chance(1, 3)) t.reset(new ExecutionSession(lib, "NONE"));
  OMTensorList *in = omTensorListCreate(nullptr, 0); okList = in; int steps = r.in(1, 12); uint64_t hh = 0; string hist; static char altstack[65536];
  for (int i = 0; i < steps; ++i) {
    // whatever the program had installed before
    if (i == 0 || r.chance(1, 3)) for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGUSR1, SIGTERM, SIGPIPE, SIGCHLD}) if (r.chance(2, 3)) { struct sigaction a{}; int k = r.in(0, 3); if (k == 0) a.sa_handler = SIG_DFL; else if (k == 1) a.sa_handler = SIG_IGN; else if (k == 2) a.sa_handler = h1; else { a.sa_sigaction = h2; a.sa_flags |= SA_SIGINFO; } if (r.chance(1, 3)) a.sa_flags |= SA_NODEFER; if (r.chance(1, 3)) a.sa_flags |= SA_RESTART; if (r.chance(1, 4)) a.sa_flags |= SA_ONSTACK; if (r.chance(1, 8)) a.sa_flags |= SA_RESETHAND; sigemptyset(&a.sa_mask); for (int q = 0; q < 3; ++q) if (r.chance(1, 2)) sigaddset(&a.sa_mask, r.pick(std::vector<int>{SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGSEGV, SIGABRT, SIGHUP})); sigaction(sg, &a, nullptr); }
    int a = r.chance(1, 3) ? 0 : r.chance(1, 6) ? -r.in(1, 30) : r.in(1, onMain ? 11 : 10) + 100 * (r.chance(1, 2) ? r.in(0, 50) : 0);
    sigset_t m; sigemptyset(&m); for (int q = 0; q < 4; ++q) if (r.chance(1, 2)) sigaddset(&m, r.pick(std::vector<int>{SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGHUP, SIGALRM, 40, 63})); if (r.chance(1, 4) && (a <= 0 || a % 100 == 5)) sigaddset(&m, SIGABRT); if (a <= 0 && r.chance(1, 4)) sigaddset(&m, SIGFPE); pthread_sigmask(SIG_SETMASK, &m, nullptr);
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    bool prot = a > 0 || r.chance(1, 2); action = a; auto d0 = disp(); string m0 = maskStr(); ExecutionSession &e = t && r.chance(1, 2) ? *t : s;
    bool threw = false; string msg; OMTensorList *out = nullptr; M->ev();
    try { out = prot ? e.runDebug(in, true) : r.chance(1, 2) ? e.runDebug(in, false) : e.run(in); } catch (ExecutionSessionException &x) { threw = true; msg = x.what(); } catch (std::exception &x) { threw = true; M->violate("foreign-exception", x.what()); }
    auto d1 = disp(); string m1 = maskStr(); hist += fmt("%d%s ", a, prot ? "p" : "");
    string d = fmt("run %d action %d ", i, a) + "history " + hist; hh = mixh(hh, a + 1000);
    if (a == 0) { M->count("normal_runs"); if (threw || out != okList) M->violate("normal-run", d + msg); }
    else if (a < 0) { M->count("errno_runs"); if (!threw || msg.find(std::to_string(-a)) == string::npos) M->violate("errno-run", d + msg); }
    else { M->count(fmt("crashes_sig%d", sigOf[a % 100])); if (!threw) M->violate("crash-not-reported", d); else if (msg.find("signal " + std::to_string(sigOf[a % 100])) == string::npos) M->violate("wrong-signal-reported", d + msg); }
    for (int k = 0; k < 64; ++k) if (d0[k] != d1[k]) { M->violate("disposition-changed", d + " before: " + d0[k] + " after: " + d1[k]); break; }
    if (m0 != m1) M->violate("mask-changed", d + " before:" + m0 + " after:" + m1);
  }
  M->distinct(hh); M->sample(hist); omTensorListDestroyShallow(in);
  // leave defaults behind
  for (int k = 1; k < 65; ++k) signal(k, SIG_DFL); sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_SETMASK, &m, nullptr);
}
int main(int argc, char **argv) { Mon m; M = &m; string lib = argv[2]; bfile = M->tmp + "/empty";
  M->run("crashes", atol(argv[1]), [&](Rng &r, long idx) { if (r.chance(1, 4)) { std::thread t([&] { body(r, idx, lib, false); }); t.join(); } else body(r, idx, lib, true); }); unlink(bfile.c_str()); return m.finish(); }
