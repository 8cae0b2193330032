// P12: the instrumentation report read back and compared with the recorded history of events, under a virtual clock.
#include "mon.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/time.h>
extern "C" {
void OMInstrumentPointInit(int64_t, const char *); void OMInstrumentPoint(const char *, int64_t, const char *); void omInstrumentPrint();
extern const char *OMCurrentOpName, *OMCurrentNodeName; extern int64_t OMCurrentTag;
static int64_t vclock; static int psMode; static std::string psText; static long psCalls, pipesOpen;
int __wrap_gettimeofday(struct timeval *t, void *) { t->tv_sec = vclock / 1000000; t->tv_usec = vclock % 1000000; return 0; }
static std::string psFile;
FILE *__real_popen(const char *, const char *); int __real_pclose(FILE *);
FILE *__wrap_popen(const char *c, const char *m) {
  ++psCalls; if (psMode == 9) { ++pipesOpen; return __real_popen(c, m); } if (psMode == 1) return nullptr;
  FILE *w = fopen(psFile.c_str(), "w"); fputs(psText.c_str(), w); fclose(w); ++pipesOpen; return fopen(psFile.c_str(), "r"); }
int __wrap_pclose(FILE *f) { --pipesOpen; if (psMode == 9) return __real_pclose(f); return fclose(f); }
}
static Mon *M;
enum { B = 1, A = 2, T = 4, MEMF = 8, INITF = 16 };
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
struct Name { char *p; size_t len; std::string s() const { return std::string(p, len); } };
struct Ev { int op, node, fl; int64_t at; int mem; };
static std::string sec(int64_t us) { return fmt("%ld.%06ld", (long)(us / 1000000), (long)(us % 1000000)); }
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void oneCase(Rng &r, long idx) {
  std::string dir = M->tmp; psFile = dir + fmt("/ps%d", getpid());
  std::string outp = dir + fmt("/out%d", getpid()), filep = dir + fmt("/log%d-%ld", getpid(), idx);
  int keep = dup(1); int ofd = open(outp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); fflush(stdout); dup2(ofd, 1);
  // names live in buffers of exactly their length: no terminator may be relied upon
  std::vector<Name> ops, nodes; auto mk = [&](size_t len, bool op) { Name n; n.len = len; n.p = (char *)malloc(len ? len : 1); static const char *nodeAlpha = "abcXYZ019_./:-%s ()[]{}=+*#~"; for (size_t i = 0; i < len; ++i) n.p[i] = op ? "abcXYZ019.-"[r.in(0, 10)] : nodeAlpha[r.in(0, 27)];
    if (len && (n.p[0] == ' ' )) n.p[0] = 'q'; if (len && n.p[len - 1] == ' ') n.p[len - 1] = 'q'; return n; };
  int no = r.in(1, 6), nn = r.in(1, 6);
  for (int i = 0; i < no; ++i) ops.push_back(mk(r.chance(1, 6) ? 63 : r.in(1, 30), true));
  for (int i = 0; i < nn; ++i) nodes.push_back(mk(r.chance(1, 8) ? 511 : r.chance(1, 5) ? 0 : r.in(1, 60), false));
  int runs = r.in(1, 4); bool big = r.chance(1, 60); bool truth = true; std::string last; int f0 = -1;
  std::string before = slurp(filep);
  for (int k = 0; k < runs; ++k) {
    int env = r.chance(1, 2) ? 0 : r.in(0, 7); int dest = r.in(0, 3); // 0 stdout 1,2 file 3 cannot be opened
    if (k && r.chance(1, 2)) { /* environment unchanged */ } 
    env & 1 ? setenv("ONNX_MLIR_NO_INSTRUMENT", r.chance(1, 2) ? "1" : "", 1) : unsetenv("ONNX_MLIR_NO_INSTRUMENT");
    env & 2 ? setenv("ONNX_MLIR_NO_INSTRUMENT_TIME", "1", 1) : unsetenv("ONNX_MLIR_NO_INSTRUMENT_TIME");
    env & 4 ? setenv("ONNX_MLIR_NO_INSTRUMENT_MEMORY", "1", 1) : unsetenv("ONNX_MLIR_NO_INSTRUMENT_MEMORY");
    if (dest == 0) unsetenv("ONNX_MLIR_INSTRUMENT_FILE"); else setenv("ONNX_MLIR_INSTRUMENT_FILE", dest == 3 ? (dir + "/no/such/dir/x").c_str() : filep.c_str(), 1);
    bool off = env & 1, noT = off || (env & 2), noM = off || (env & 4);
    std::string target = dest == 1 || dest == 2 ? filep : outp; struct stat sb; bool existed = !stat(filep.c_str(), &sb); long start = slurp(target).size(); long otherStart = slurp(target == filep ? outp : filep).size();
    // sessions: one or several inferences before the report is printed; only the last is guaranteed in full
    int infer = r.chance(1, 5) ? r.in(2, 3) : 1; std::vector<std::vector<Ev>> seq(infer); std::vector<std::string> infos(infer); std::vector<int64_t> t0(infer); std::vector<bool> newp(infer);
    bool np = r.chance(2, 3); psCalls = 0; int psErrors = 0; std::vector<std::vector<std::string>> memLines(infer); long lastMem = 0;
    for (int q = 0; q < infer; ++q) {
      vclock = 1000000 * r.in(1, 2000000000) + r.in(0, 999999); newp[q] = np; static const char *infoPool[] = {"{ \"compiler_version\": \"x\" }", "", "a, b %s %d", "{\n \"a\": {\n  \"b\": 1 }\n}", "O3"}; infos[q] = infoPool[r.in(0, 4)]; t0[q] = vclock;
      char *inf = strdup(infos[q].c_str()); int actions = r.pick(std::vector<int>{T, T, T | MEMF, MEMF, 0, T});
      if (np) OMInstrumentPointInit(actions, inf);
      int n = big && q == 0 ? r.in(8000, 17000) : r.chance(1, 10) ? 0 : r.in(1, 40); int style = r.in(0, 3); // pairs, before only, after only, arbitrary
      if (!np && n == 0) n = 1;
      std::vector<std::pair<int, int>> stack;
      for (int e = 0; e < n; ++e) {
        Ev x; x.mem = 0; bool nb = false;
        if (style == 0) { if (stack.empty() || (r.chance(1, 4) && stack.size() < 4)) { stack.push_back({(int)r.in(0, no - 1), (int)r.in(0, nn - 1)}); nb = true; x.op = stack.back().first; x.node = stack.back().second; } else { x.op = stack.back().first; x.node = stack.back().second; stack.pop_back(); } }
        else { x.op = r.in(0, no - 1); x.node = r.in(0, nn - 1); nb = style == 1 || (style == 3 && r.chance(1, 2)); if (style == 3 && big) x.op = e % no; }
        x.fl = (nb ? B : A) | (big ? actions & ~MEMF : actions); if (r.chance(1, 12)) x.fl &= ~T; if (!np && e == 0) x.fl |= INITF;
        vclock += r.chance(1, 10) ? 0 : r.chance(1, 20) ? r.in(1000000, 5000000000) : r.in(1, 3000);
        if (!np && e == 0) t0[q] = vclock; x.at = vclock;
        uint64_t tag = (uint64_t)x.fl | ((uint64_t)ops[x.op].len << 8) | ((uint64_t)nodes[x.node].len << 24);
        bool mem = (x.fl & MEMF) && !noM && psErrors < 20; std::string want;
        if (x.fl & MEMF) {
          psMode = r.chance(1, 400) ? 9 : r.chance(1, 8) ? r.in(1, 4) : 0;
          psText = psMode == 0 ? fmt("%*ld\n", (int)r.in(0, 9), (long)(lastMem = r.in(1, 1 << 30))) : psMode == 2 ? "" : psMode == 3 ? fmt("%ld\n%ld\n", 12L, 13L) : psMode == 4 ? "77" : "";
          if (mem) { std::string head = "==MEM-REPORT==, " + ops[x.op].s() + ", " + nodes[x.node].s() + ", " + (nb ? "before" : "after");
            if (psMode == 0) want = head + ", " + psText.substr(0, psText.size() - 1); else if (psMode == 4) want = head + ", 77"; else if (psMode == 9) want = head + ", \x01"; else { want = head + ", error-"; ++psErrors; }
            memLines[q].push_back(want); }
        }
        OMInstrumentPoint(ops[x.op].p, (int64_t)tag, nodes[x.node].p); M->ev();
        if (OMCurrentOpName != ops[x.op].p || OMCurrentNodeName != nodes[x.node].p || OMCurrentTag != (int64_t)tag) M->violate("current-op-snapshot", fmt("event %d", e));
        if (pipesOpen) M->violate("pipe-leak", fmt("event %d", e));
        seq[q].push_back(x);
      }
      if (q < infer - 1) { /* next inference without printing */ } 
      if (q == infer - 1) { omInstrumentPrint(); M->ev(); }
      free(inf);
    }
    if (r.chance(1, 4)) omInstrumentPrint(); // nothing more to print
    if (f0 < 0) f0 = fds(); else if (fds() != f0) M->violate("descriptor-leak", fmt("run %d", k));
    std::string text = slurp(target).substr(start);
    std::string d = fmt("run %d env %d dest %d inferences %d new-protocol %d events %zu style", k, env, dest, infer, (int)np, seq.back().size());
    if (slurp(target == filep ? outp : filep).size() != (size_t)otherStart) M->violate("wrong-destination", d);
    if (off) { M->count("disabled_runs"); if (!text.empty()) M->violate("report-while-disabled", d + ": " + text.substr(0, 300)); if (!existed && !stat(filep.c_str(), &sb)) M->violate("file-touched-while-disabled", d); continue; }
    // split the text into inferences at START-REPORT
    std::vector<std::string> lines; { size_t p = 0; while (p < text.size()) { size_t e = text.find('\n', p); if (e == std::string::npos) { M->violate("unterminated-line", d); e = text.size(); } lines.push_back(text.substr(p, e - p)); p = e + 1; } }
    std::vector<std::vector<std::string>> parts; for (auto &l : lines) { if (l == "==START-REPORT==") parts.push_back({}); else if (parts.empty()) { M->violate("line-before-start", d + ": " + l); parts.push_back({}); parts.back().push_back(l); } else parts.back().push_back(l); }
    // an inference followed by another one without print may have printed a part only (full buffer, memory lines)
    size_t pi = 0;
    for (int q = 0; q < infer; ++q) {
      std::vector<std::string> perf; int64_t prev = t0[q];
      if (!noT) for (auto &x : seq[q]) if (x.fl & T) { perf.push_back("==PERF-REPORT==, " + ops[x.op].s() + ", " + nodes[x.node].s() + ", " + (x.fl & B ? "before" : "after") + ", " + sec(x.at - prev) + ", " + sec(x.at - t0[q])); prev = x.at; }
      bool lastq = q == infer - 1; M->count("reported_events", perf.size() + memLines[q].size());
      bool expectPart = lastq ? !perf.empty() || !memLines[q].empty() : !memLines[q].empty() || perf.size() > 8192 * 2;
      bool mayPart = expectPart || perf.size() >= 8192;
      if (!expectPart && !mayPart) { continue; }
      if (pi >= parts.size()) { if (expectPart) M->violate("report-missing", d + fmt(" inference %d, %zu time events", q, perf.size())); continue; }
      std::vector<std::string> pl = parts[pi];
      // a non-last inference that may or may not have printed: recognise it by its first line
      if (!expectPart && (parts.size() - pi) < (size_t)(infer - q)) { bool mine = false; for (auto &l : pl) if (!perf.empty() && l == perf[0]) mine = true; if (!mine) continue; }
      ++pi;
      if (np) { std::string want = "==COMPILE-INFO-REPORT==, " + infos[q]; std::vector<std::string> wl; size_t p = 0; while (true) { size_t e = want.find('\n', p); wl.push_back(want.substr(p, e == std::string::npos ? e : e - p)); if (e == std::string::npos) break; p = e + 1; }
        bool ok = pl.size() >= wl.size() && std::equal(wl.begin(), wl.end(), pl.begin()); if (!ok) M->violate("compile-info", d + ": " + (pl.empty() ? "" : pl[0])); else pl.erase(pl.begin(), pl.begin() + wl.size()); }
      std::vector<std::string> gotP, gotM; for (auto &l : pl) { if (l.rfind("==PERF-REPORT==", 0) == 0) gotP.push_back(l); else if (l.rfind("==MEM-REPORT==", 0) == 0) gotM.push_back(l); else M->violate("unknown-line", d + ": " + l); }
      if (lastq ? gotP.size() != perf.size() : gotP.size() > perf.size()) M->violate("event-count", d + fmt(" expected %zu time events, got %zu", perf.size(), gotP.size()));
      for (size_t i = 0; i < std::min(gotP.size(), perf.size()); ++i) if (gotP[i] != perf[i]) { M->violate("time-event", d + fmt(" event %zu expected '", i) + perf[i].substr(0, 600) + "' got '" + gotP[i].substr(0, 600) + "'"); break; }
      if (gotM.size() != memLines[q].size()) M->violate("memory-count", d + fmt(" expected %zu got %zu", memLines[q].size(), gotM.size()));
      for (size_t i = 0; i < std::min(gotM.size(), memLines[q].size()); ++i) { auto &w = memLines[q][i]; bool ok; if (w.back() == '\x01') { std::string h = w.substr(0, w.size() - 1); ok = gotM[i].rfind(h, 0) == 0 && strtol(gotM[i].c_str() + h.size(), nullptr, 10) > 0; } else if (w.size() > 8 && w.compare(w.size() - 8, 8, ", error-") == 0) ok = gotM[i].find("error-") != std::string::npos && gotM[i].rfind(w.substr(0, w.size() - 8), 0) == 0; else ok = gotM[i] == w; if (!ok) { M->violate("memory-event", d + " expected '" + w.substr(0, 600) + "' got '" + gotM[i].substr(0, 600) + "'"); break; } }
      uint64_t h = mixh(perf.size() > 8192 ? 8192 : perf.size(), gotM.size()); for (auto &x : seq[q]) { h = mixh(h, x.fl * 64 + x.op * 8 + x.node); } M->distinct(h);
      if (q == 0 && k == 0 && !gotP.empty()) M->sample(gotP[0]);
    }
    if (pi != parts.size()) M->violate("extra-report", d + fmt(" %zu parts, %zu expected", parts.size(), pi));
    if (big) M->count("runs_overflowing_the_buffer");
  }
  fflush(stdout); dup2(keep, 1); close(keep); close(ofd); unlink(outp.c_str()); unlink(filep.c_str()); unlink(psFile.c_str());
  for (auto &n : ops) free(n.p); for (auto &n : nodes) free(n.p);
  for (auto e : {"ONNX_MLIR_NO_INSTRUMENT", "ONNX_MLIR_NO_INSTRUMENT_TIME", "ONNX_MLIR_NO_INSTRUMENT_MEMORY", "ONNX_MLIR_INSTRUMENT_FILE"}) unsetenv(e);
}
int main(int argc, char **argv) { Mon m; M = &m; M->run("histories", atol(argv[1]), oneCase); return m.finish(); }
