// P18: the compiler driver against a fake compiler that records how it is started.
#include "drv.hpp"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include "src/Compiler/Command.hpp"
#include "src/Compiler/CommandUtils.hpp"
#include "src/Compiler/OMCompile.hpp"
using namespace onnx_mlir; using std::string; namespace fs = std::filesystem; using Strs = std::vector<string>;
extern char **environ;
static Mon *M; static string FAKE, EXITMARK; static pid_t owner;
struct Rec { bool ok = false; Strs argv, env; string cwd; };
static Rec readRec(const string &p) { Rec r; string s = slurp(p); if (s.empty()) return r; Strs f; size_t a = 0; for (size_t i = 0; i < s.size(); ++i) if (!s[i]) { f.push_back(s.substr(a, i - a)); a = i + 1; } size_t n = atoi(f[0].c_str()); if (f.size() < n + 2) return r; r.ok = true; r.argv.assign(f.begin() + 1, f.begin() + 1 + n); r.cwd = f[n + 1]; r.env.assign(f.begin() + n + 2, f.end()); return r; }
// what must be left alone in the caller
struct State { string cwd, fds, sig; Strs env;
  static State now() { State s; s.cwd = fs::current_path().string(); std::vector<string> v; if (DIR *d = opendir("/proc/self/fd")) { while (dirent *e = readdir(d)) { char b[512]; string l = string("/proc/self/fd/") + e->d_name; ssize_t n = readlink(l.c_str(), b, 511); if (n > 0 && atoi(e->d_name) != dirfd(d)) v.push_back(string(e->d_name) + "=" + string(b, n)); } closedir(d); } std::sort(v.begin(), v.end()); for (auto &x : v) s.fds += x + " "; for (char **e = environ; *e; ++e) s.env.push_back(*e);
    sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m); for (int i = 1; i < 32; ++i) { struct sigaction a; sigaction(i, nullptr, &a); s.sig += fmt("%d%p%d ", sigismember(&m, i), (void *)a.sa_handler, a.sa_flags); } return s; } };
static void same(const State &a, const State &b, const string &what) {
  if (a.cwd != b.cwd) M->violate("caller-directory", what + ": " + a.cwd + " became " + b.cwd);
  if (a.fds != b.fds) M->violate("caller-descriptors", what + ": " + a.fds + " became " + b.fds);
  if (a.env != b.env) M->violate("caller-environment", what);
  if (a.sig != b.sig) M->violate("caller-signals", what);
  if (waitpid(-1, nullptr, WNOHANG) != -1 || errno != ECHILD) M->violate("zombie", what); }
static const Strs TOK = {"-O3", "-O0", "--EmitLib", "-EmitObj", "--EmitMLIR", "-v", "--mcpu=z16", "-march=x86-64", "--shapeInformation=0:-1x2,1:3", "--tag=abc", "-tag=x y", "--opt=a\"b\"c", "--opt=it's", "-Xopt=-a -b", "--x=\\n\\\\", "value", "two words", "--a=b=c", "{\"k\": [1, 2]}", "--dollar=$HOME", "a;b&c|d", "*?[x]", "`date`", "$(id)", "--utf=\xc3\xa9\xe6\x97\xa5", "-D", "x", "--long=", "#no", "~", "!", "--tab=\t.", "--nl=\n."};
static string longTok(Rng &r) { return "--long=" + string(r.in(1000, 60000), 'q'); }
static string token(Rng &r) { if (r.chance(1, 60)) return longTok(r); if (r.chance(1, 5)) { string s = "-"; int n = r.in(1, 12); for (int i = 0; i < n; ++i) { char c = r.in(32, 126); s += c; } return s.find("-spec") == 0 || s == "-o" || s.rfind("-o=", 0) == 0 || s.rfind("--o", 0) == 0 || s.rfind("-E", 0) == 0 || s.rfind("--E", 0) == 0 || s.rfind("-tag", 0) == 0 ? string("-k") : s; } return r.pick(TOK); }
static const char *DESC[] = {"Success", "Invalid compiler option", "Invalid input file format", "Cannot open input file", "Cannot open output file", "Cannot access temporary file", "Invalid ONNX format", "Failed to lower MLIR to LLVM", "Failed to optimize LLVM", "Failed to lower LLVM to object", "Failed to generate JNI object", "Failed to generate JNI", "Failed to link object to library", "Invalid compiler options", "Compilation failed", "Compiler failed to execute successfully", "Command executable not found", "Command not executable", "Command execution failed", "Input file is a hardlink"};
static void onAlarm(int) {}
enum Fail { OK, RC, SIG, MISSING, NOEXEC, NOINPUT, NOOUTPUT, NONAME };
struct Plan { Fail how; int n; string flags; Strs toks; string model; bool modelInFlags; string log; bool badPath; };
// runs one compile of a session and checks everything about it
static void oneCompile(Rng &r, OMCompile &c, const string &compilerOfSession, const string &dir, int step, bool &isOk, string &lastOut, string &lastTag, uint64_t &h) {
  Fail how = r.chance(1, 2) ? OK : (Fail)r.in(1, 7); string d = dir + fmt("/s%d", step); fs::create_directories(d + "/in put");
  static const Strs names = {"m.onnx", "model.mlir", "my net.onnxtext", "in put/m.onnx", "a.b.onnx", "it's.onnx", "q\"q.mlir", "x;y.onnx", "-dash/m.onnx"};
  string model = r.pick(names); if (model[0] == '-') model = "./" + model; string full = d + "/" + model; if (r.chance(1, 2)) model = full;
  fs::current_path(d); bool inFlags = r.chance(1, 4);
  fs::create_directories(fs::path(full).parent_path()); if (how != NOINPUT) spit(full, "model");
  Strs toks, flagToks; int n = r.in(0, 7); for (int i = 0; i < n; ++i) toks.push_back(token(r));
  toks.erase(std::remove_if(toks.begin(), toks.end(), [](const string &t) { return t.find(".onnx") != string::npos || t.find(".mlir") != string::npos; }), toks.end());
  // the tag and emission flags repeat: only the announced file is P19's, here any is fine
  string spec = d + "/spec", rec = d + "/rec"; fs::remove(rec); toks.insert(toks.begin() + r.in(0, toks.size()), "-spec=" + spec);
  string ob; if (r.chance(1, 2)) { static const Strs outs = {"out", "sub/out", "o ut", "./x.y"}; ob = r.pick(outs); fs::create_directories(d + "/sub"); int at = r.in(0, toks.size()); if (r.chance(1, 2)) { toks.insert(toks.begin() + at, ob); toks.insert(toks.begin() + at, "-o"); } else toks.insert(toks.begin() + at, "-o=" + ob); }
  if (inFlags) toks.push_back(model);
  if (how == NONAME) { if (inFlags) toks.pop_back(); inFlags = true; }
  string flags; for (auto &t : toks) { if (r.chance(1, 10)) flags += r.chance(1, 2) ? "  " : "\t \n"; flags += quote(r, t) + (r.chance(1, 8) ? "   " : " "); } if (r.chance(1, 2) && !flags.empty() && flags.back() == ' ' && (flags.size() < 2 || flags[flags.size() - 2] != '\\')) flags.pop_back();
  string log; if (r.chance(1, 2)) { log = r.chance(1, 2) ? d + "/log file" : "log.txt"; if (r.chance(1, 2)) spit(log, string(9000, 'z')); }
  string o1 = "first line " + string(r.in(0, 5), '*'), e1 = "warning: \xc3\xa9", o2 = string(r.in(0, 30000), 'w');
  string predicted; try { predicted = OMCompile::predictOutputFilename(inFlags ? "" : model, flags); } catch (std::exception &e) { M->violate("predict-threw", e.what()); }
  int rc = 0, sg = 0; if (how == RC) rc = r.chance(1, 2) ? r.in(1, 19) : r.in(1, 255); static const std::vector<int> sigs = {SIGSEGV, SIGABRT, SIGILL, SIGFPE, SIGBUS, SIGKILL, SIGTERM, SIGINT, SIGHUP, SIGPIPE, SIGUSR1, SIGXCPU}; if (how == SIG) sg = r.pick(sigs);
  bool slow = r.chance(1, 12);
  spit(spec, "rec " + rec + "\nout " + o1 + "\nerr " + e1 + "\nout " + o2 + (how == NOOUTPUT ? "" : "\ntouch " + predicted) + (slow ? "\nsleep 40" : "") + fmt("\nrc %d\nsig %d\n", rc, sg));
  if (how == NOOUTPUT) fs::remove(predicted);
  string compiler = compilerOfSession, arg; bool over = how == MISSING || how == NOEXEC || r.chance(1, 3);
  if (over) { if (how == MISSING) { static const Strs miss = {"/nonexistent/onnx-mlir", "no-such-compiler-here", "./onnx-mlir-not"}; compiler = r.pick(miss); } else if (how == NOEXEC) { compiler = r.chance(1, 2) ? d : d + "/noexec"; if (compiler != d) { spit(compiler, "x"); chmod(compiler.c_str(), 0644); } } else { compiler = d + "/my cc"; fs::create_symlink(FAKE, compiler); } arg = compiler; }
  string what = show(toks) + " flags=" + flags + " model=" + model + fmt(" inFlags=%d how=%d/%d/%d log=", inFlags, how, rc, sg) + log + " compiler=" + compiler; M->ev(); M->sample(what);
  h = mixh(h, hashStr(flags)); h = mixh(h, (uint64_t)how * 1000 + rc * 4 + sg); M->distinct(h);
  if (slow) { struct sigaction a = {}; a.sa_handler = onAlarm; sigaction(SIGALRM, &a, nullptr); itimerval t = {{0, 7000}, {0, 7000}}; setitimer(ITIMER_REAL, &t, nullptr); M->count("compiles_interrupted_by_signals"); }
  string bufFile = d + "/buffered"; FILE *bf = fopen(bufFile.c_str(), "w"); fputs("once", bf); // unflushed data of the caller
  State before = State::now(); Capture cap(d); bool threw = false, foreign = false; string err; fputs("pending", stdout);
  try { c.compile(inFlags ? "" : model, flags, "", arg, log); } catch (OMCompileException &e) { threw = true; err = e.what(); } catch (std::exception &e) { threw = foreign = true; err = e.what(); } catch (...) { threw = foreign = true; }
  string got = cap.end(); if (slow) { itimerval t = {}; setitimer(ITIMER_REAL, &t, nullptr); }
  fs::remove(d + "/captured"); same(before, State::now(), what); fclose(bf);
  if (slurp(bufFile) != "once") M->violate("caller-buffers", what + ": buffered data appears as " + slurp(bufFile));
  if (fs::exists(EXITMARK)) { M->violate("caller-exit-handlers", what + ": exit handlers of the caller ran"); fs::remove(EXITMARK); }
  size_t pp = got.find("pending"); if (pp == string::npos || got.find("pending", pp + 1) != string::npos) M->violate("caller-buffers", what + ": text of the caller appears " + (pp == string::npos ? "never" : "twice")); else got.erase(pp, 7);
  M->count(fmt("outcome:%s", how == OK ? "ok" : how == RC ? "status" : how == SIG ? "signal" : how == MISSING ? "missing" : how == NOEXEC ? "not-executable" : how == NOINPUT ? "no-input" : how == NOOUTPUT ? "no-output" : "no-name"));
  if (foreign) M->violate("foreign-exception", what + ": " + err);
  if (threw != (how != OK)) M->violate(threw ? "failed-although-compiled" : "succeeded-although-failed", what + ": " + err);
  if (threw && err.size() < 5) M->violate("no-message", what);
  if (how == RC && rc <= 19 && err.find(DESC[rc]) == string::npos) M->violate("message", what + ": " + err);
  if ((how == MISSING && err.find(DESC[16]) == string::npos) || (how == NOEXEC && err.find(DESC[17]) == string::npos)) M->violate("message", what + ": " + err);
  bool started = how != MISSING && how != NOEXEC && how != NOINPUT && how != NONAME; Rec k = readRec(rec);
  if (started != k.ok) { M->violate(k.ok ? "started" : "not-started", what); }
  if (k.ok) {
    Strs want = {fs::path(compiler).filename().string()}; want.insert(want.end(), toks.begin(), toks.end()); if (!inFlags) want.push_back(model);
    if (k.argv != want) M->violate("arguments", what + ": compiler got " + show(k.argv));
    if (k.cwd != before.cwd) M->violate("compiler-directory", what + ": " + k.cwd);
    Strs a = k.env, b = before.env; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) M->violate("compiler-environment", what);
    string text = o1 + "\n" + e1 + "\n" + o2 + "\n", l = log.empty() ? "" : slurp(log);
    if (log.empty() ? got != text : (l != text || !got.empty())) M->violate(log.empty() ? "output" : "log", what + ": log has " + l.substr(0, 100) + fmt(" (%zu bytes), own streams have ", l.size()) + got.substr(0, 100) + fmt(" (%zu bytes) of %zu", got.size(), text.size()));
    M->count("arguments_checked", k.argv.size()); }
  else if ((how == NOINPUT || how == NONAME) && !got.empty()) M->violate("output", what + ": prints " + got);
  // what the session says afterwards
  isOk = how == OK; if (isOk) { lastOut = predicted; }
  auto q = [&](const char *name, const std::function<string()> &f, bool compare, const string &exp) { try { string v = f(); if (!isOk) M->violate(string("answer-after-failure:") + name, what + ": " + v); else if (compare && v != exp) M->violate(string("answer:") + name, what + ": " + v + " not " + exp); } catch (OMCompileException &e) { if (isOk || !*e.what()) M->violate(string("no-answer:") + name, what + ": " + e.what()); } };
  if (c.isSuccessfullyCompiled() != isOk) M->violate("state", what);
  q("output", [&] { return c.getOutputFilename(); }, true, lastOut); q("constants", [&] { return c.getOutputConstantFilename(); }, true, ""); q("tag", [&] { return c.getModelTag(); }, false, "");
  if (c.hasOutputConstantFilename()) M->violate("constants", what);
  fs::current_path("/"); fs::remove_all(d); }
static void history(Rng &r, long i) {
  string dir = M->tmp + fmt("/h%d-%ld", getpid(), i); fs::create_directories(dir); EXITMARK = M->tmp + fmt("/exit%d", getpid()); bool ok = false; string out, tag; uint64_t h = 18;
  string cc = dir + "/onnx-mlir"; fs::create_symlink(FAKE, cc); string byPath = cc; string oldPath = getenv("PATH"); bool viaPath = r.chance(1, 3); if (viaPath) { setenv("PATH", (dir + ":" + oldPath).c_str(), 1); byPath = "onnx-mlir"; }
  { Capture cap(dir); std::unique_ptr<OMCompile> c; try { c.reset(viaPath ? r.chance(1, 2) ? new OMCompile() : new OMCompile("") : new OMCompile(cc)); } catch (...) { M->violate("constructor", "threw"); }
    cap.end(); if (c->isSuccessfullyCompiled() || c->getMode() != OMCompile::CompilationMode::Local || !c->getContainerEngineName().empty()) M->violate("fresh-session", "");
    int n = r.in(1, 5); for (int s = 0; s < n; ++s) oneCompile(r, *c, byPath, dir, s, ok, out, tag, h); }
  // constructors that verify the compiler
  if (r.chance(1, 6)) { int rc = r.chance(1, 2) ? 0 : r.in(1, 200); setenv("FAKE_VERSION_RC", std::to_string(rc).c_str(), 1); bool miss = r.chance(1, 4); Capture cap(dir); bool threw = false; try { OMCompile v(miss ? dir + "/missing" : cc, true); } catch (OMCompileException &e) { threw = true; } catch (...) { M->violate("foreign-exception", "verifying constructor"); } cap.end(); M->ev(); if (threw != (rc || miss)) M->violate("verifying-constructor", fmt("rc %d missing %d threw %d", rc, miss, threw)); unsetenv("FAKE_VERSION_RC"); }
  setenv("PATH", oldPath.c_str(), 1); fs::remove_all(dir); }
// the Command class on its own
static void command(Rng &r, long i) {
  string dir = M->tmp + fmt("/c%d-%ld", getpid(), i), spec = dir + "/spec", rec = dir + "/rec"; fs::create_directories(dir + "/work dir/sub"); fs::current_path(dir); setenv("FAKE_SPEC", spec.c_str(), 1);
  { Command c(FAKE); Strs want = {fs::path(FAKE).filename().string()}; int n = r.in(0, 8); uint64_t h = 4;
    for (int k = 0; k < n; ++k) { if (r.chance(1, 8)) { c.resetArgs(); want.resize(1); } else if (r.chance(1, 2)) { string t = r.chance(1, 8) ? "" : token(r); c.appendStr(t); if (!t.empty()) want.push_back(t); } else { Strs l; int m = r.in(0, 4); for (int q = 0; q < m; ++q) l.push_back(r.chance(1, 8) ? "" : token(r)); c.appendList(l); for (auto &t : l) if (!t.empty()) want.push_back(t); } }
    if (c.getArgs() != want) M->violate("command-arguments", show(c.getArgs()) + " not " + show(want));
    int times = r.in(1, 3);
    for (int t = 0; t < times; ++t) {
      static const Strs dirs = {"", "work dir", "work dir/sub", "..", ".", "missing", "ABS"}; string w = r.pick(dirs); if (w == "ABS") w = dir + "/work dir"; bool bad = w == "missing"; int rc = r.chance(1, 2) ? 0 : r.in(1, 255); fs::remove(rec); spit(spec, "rec " + rec + fmt("\nrc %d\n", rc));
      M->ev(); M->distinct(mixh(mixh(h, hashStr(w + show(want))), rc)); State before = State::now(); int got = -1; bool threw = false;
      try { got = c.exec(w); } catch (CommandException &e) { threw = true; if (!*e.what()) M->violate("no-message", "exec"); }
      string what = "exec in '" + w + "' of " + show(want) + fmt(" status %d", rc); same(before, State::now(), what);
      if (threw != bad) M->violate("command-failure", what); if (bad) continue;
      Rec k = readRec(rec); if (!k.ok) { M->violate("not-started", what); continue; }
      if (got != rc) M->violate("command-status", what + fmt(": %d", got)); if (k.argv != want) M->violate("command-arguments", what + ": " + show(k.argv));
      std::error_code ec; if (!fs::equivalent(k.cwd, w.empty() ? fs::path(dir) : fs::path(dir) / w, ec)) M->violate("command-directory", what + ": ran in " + k.cwd); M->count("commands"); }
    bool threw = false; try { Command e(""); } catch (CommandException &) { threw = true; } if (!threw) M->violate("empty-command", ""); }
  unsetenv("FAKE_SPEC"); fs::current_path("/"); fs::remove_all(dir); }
// independent sessions on independent threads
static void threads(Rng &r, long i) {
  string dir = M->tmp + fmt("/t%d-%ld", getpid(), i); fs::create_directories(dir); int n = r.in(2, 6); std::vector<std::thread> ts; std::vector<string> bad(n); std::vector<int> rcs(n); for (auto &x : rcs) x = r.chance(1, 3) ? r.in(1, 19) : 0;
  for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
    string d = dir + fmt("/t%d", t); fs::create_directories(d); spit(d + "/m.onnx", "x"); OMCompile c(FAKE);
    for (int k = 0; k < 4; ++k) { fs::remove(d + "/rec"); spit(d + "/spec", "rec " + d + "/rec\nout thread " + d + fmt(" %d\n", k) + "touch " + d + "/m.so\nrc " + std::to_string(rcs[t]) + "\n"); bool threw = false; string err; string fl = "-O3 -spec=" + d + fmt("/spec -k%d", k);
      try { c.compile(d + "/m.onnx", fl, "", "", d + "/log"); } catch (std::exception &e) { threw = true; err = e.what(); }
      Rec q = readRec(d + "/rec"); Strs want = {fs::path(FAKE).filename().string(), "-O3", "-spec=" + d + "/spec", fmt("-k%d", k), d + "/m.onnx"};
      if (threw != (rcs[t] != 0)) bad[t] = "thread-status: " + err; else if (q.argv != want) bad[t] = "thread-arguments: " + show(q.argv); else if (slurp(d + "/log") != "thread " + d + fmt(" %d\n", k)) bad[t] = "thread-log: " + slurp(d + "/log"); else if (!threw && c.getOutputFilename() != d + "/m.so") bad[t] = "thread-output: " + c.getOutputFilename(); else if (threw && err.find(DESC[rcs[t]]) == string::npos) bad[t] = "thread-message: " + err; } });
  for (auto &t : ts) t.join();
  for (auto &b : bad) if (!b.empty()) M->violate(b.substr(0, b.find(':')), b);
  M->ev(n * 4); M->count("threaded_compiles", n * 4); M->distinct(mixh(7, i)); fs::remove_all(dir); }
// paths that cannot even be examined
static void odd(Rng &r, long i) {
  string dir = M->tmp + fmt("/o%d-%ld", getpid(), i); fs::create_directories(dir); spit(dir + "/file.onnx", "x"); symlink("loop.onnx", (dir + "/loop.onnx").c_str()); OMCompile c(FAKE);
  static const Strs kinds = {"long", "notdir", "loop", "nul"}; string k = r.pick(kinds), p = k == "long" ? dir + "/" + string(r.in(250, 6000), 'l') + ".onnx" : k == "notdir" ? dir + "/file.onnx/m.onnx" : k == "loop" ? dir + "/loop.onnx" : "/dev/null/x.onnx"; M->ev(); M->distinct(hashStr(k)); M->count("odd_paths");
  bool threw = false; try { c.compile(p, "-O3"); } catch (OMCompileException &) { threw = true; } catch (std::exception &e) { threw = true; M->violate("foreign-exception", k + ": " + e.what()); } if (!threw) M->violate("succeeded-although-failed", k); fs::remove_all(dir); }
static void exitHandler() { int fd = open(EXITMARK.c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); }
int main(int argc, char **argv) {
  Mon m; M = &m; long n = atol(argv[1]); FAKE = argv[2]; atexit(exitHandler);
  m.run("history", n, history, 60); m.run("command", n, command, 60); m.run("threads", n / 8, threads, 60); m.run("odd", 16, odd, 60);
  fflush(nullptr); int rc = m.finish(); _exit(rc); }
