// P13: ExecutionSession over mock models, compared call by call with a model of the session.
#include "mon.hpp"
#include <errno.h>
#include <filesystem>
#include <fstream>
#include <link.h>
#include <sys/stat.h>
#include "src/Runtime/ExecutionSession.hpp"
using namespace onnx_mlir; using std::string;
static Mon *M;
struct Variant { string file, tag, id; bool q, in, out, info, print, main; };
static std::vector<Variant> V;
static std::vector<string> events; static string ctorPath; static bool ctorPathSet;
static int runErr; static OMTensorList *seenList; static std::vector<OMTensor *> seenTensors; static string seenWho; static std::vector<OMTensor *> giveOut; static int runs;
extern "C" {
__attribute__((visibility("default"))) void mock_event(const char *id, const char *what) { events.push_back(string(id) + ":" + what); if (!strcmp(what, "ctor")) { const char *p = getenv("OM_CONSTANT_PATH"); ctorPathSet = p; ctorPath = p ? p : ""; } }
__attribute__((visibility("default"))) OMTensorList *mock_run(const char *id, const char *entry, OMTensorList *l) {
  ++runs; seenList = l; seenWho = string(id) + "/" + entry; seenTensors.clear(); for (int64_t i = 0; i < omTensorListGetSize(l); ++i) seenTensors.push_back(omTensorListGetOmtByIndex(l, i));
  if (runErr >= 0) { errno = runErr; return nullptr; }
  errno = 77; /* a stale value that is not an error */
  return omTensorListCreate(giveOut.data(), giveOut.size()); }
int __real_setenv(const char *, const char *, int);
}
static bool mapped(const string &f) { bool hit = false; std::pair<const string *, bool *> a{&f, &hit}; dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) { auto *a = (std::pair<const string *, bool *> *)p; if (i->dlpi_name && *a->first == i->dlpi_name) *a->second = true; return 0; }, &a); return hit; }
static OMTensor *mk(Rng &r) { int rank = r.in(0, 4); std::vector<int64_t> s(rank); for (auto &x : s) x = r.in(0, 3); OMTensor *t = omTensorCreateEmpty(s.data(), rank, ONNX_TYPE_FLOAT); memset(omTensorGetDataPtr(t), 7, omTensorGetBufferSize(t)); return t; }
struct Sess { std::unique_ptr<ExecutionSession> s; bool init = false; string path; int v = -1; string suffix; string entry; bool ghost = false; };
static string lower(string s) { for (char &c : s) c = tolower((unsigned char)c); return s; }
static void oneCase(Rng &r, long idx) {
  string dir = M->tmp + fmt("/d%d-%ld", getpid(), idx); if (r.chance(1, 3)) dir += "/Sub.dir v1"; std::filesystem::create_directories(dir); string root = M->tmp + fmt("/d%d-%ld", getpid(), idx);
  // library files: copies of the variants under names of our choosing
  struct File { string path; int v; }; std::vector<File> files; int nf = r.in(1, 4); uint64_t h = 0;
  static const std::vector<string> names = {"Model7.so", "MODEL7.so", "model7", "model7.DLL", "my-Net_v2.1.so", "x.so", "other.so", "a b.so", "NONE.so", "plain.so"};
  for (int i = 0; i < nf; ++i) { string p = dir + fmt("/f%d/", i) + r.pick(names); std::filesystem::create_directories(dir + fmt("/f%d", i)); int v = r.chance(1, 10) ? -1 : r.chance(1, 2) ? r.in(0, 5) : r.in(0, (int)V.size() - 1); if (v >= 0) std::filesystem::copy_file(V[v].file, p); else if (r.chance(1, 2)) std::ofstream(p) << "not a library"; else std::ofstream(p); files.push_back({p, v}); }
  std::vector<Sess> ss(r.in(1, 3)); int steps = r.in(3, 25); string hist;
  auto refs = [&](const string &p) { int n = 0; for (auto &s : ss) if (s.s && s.init && s.path == p) ++n; return n; };
  for (int st = 0; st < steps; ++st) {
    Sess &s = ss[r.in(0, ss.size() - 1)];
    bool hasEnv = r.chance(1, 3); string envVal = r.chance(1, 2) ? "/some/where" : ""; if (hasEnv) setenv("OM_CONSTANT_PATH", envVal.c_str(), 1); else unsetenv("OM_CONSTANT_PATH");
    int op = r.in(0, 9); string err, what; bool threw = false, foreign = false; events.clear(); M->ev();
    auto call = [&](const std::function<void()> &f) { threw = foreign = false; err.clear(); try { f(); } catch (ExecutionSessionException &e) { threw = true; err = e.what(); } catch (std::exception &e) { threw = foreign = true; err = e.what(); } catch (...) { threw = foreign = true; } };
    auto bad = [&](const char *k, const string &d = "") { M->violate(k, what + " after " + hist.substr(hist.size() > 500 ? hist.size() - 500 : 0) + (threw ? " [threw: " + err + "] " : " ") + d); };
    if (s.s && s.init && op <= 1 && r.chance(2, 3)) op = r.in(2, 8); if (!s.s && op != 0) op = r.chance(1, 2) ? 0 : 9;
    if (op == 9) { what = "default-construct"; if (s.s) { op = 0; } else { call([&] { void *m = ::operator new(sizeof(ExecutionSession)); memset(m, 0xA5, sizeof(ExecutionSession)); s.s.reset(new (m) ExecutionSession()); }); if (threw) bad("default-construct"); s.init = false; s.entry = ""; } }
    if (op == 0 || op == 1) {
      bool viaLoad = s.s != nullptr; if (viaLoad && op == 0 && r.chance(1, 2)) { what = "destroy"; string p = s.path; bool was = s.init; call([&] { s.s.reset(); }); if (threw) bad("destroy"); s = Sess(); if (was && !refs(p) && mapped(p)) bad("library-kept-after-destroy", p); }
      else {
        int fi = r.chance(1, 16) ? -1 : r.in(0, nf - 1); string path = fi < 0 ? (r.chance(1, 2) ? dir + "/missing.so" : "missing-no-dir.so") : files[fi].path; int v = fi < 0 ? -1 : files[fi].v;
        string tag; int tk = r.in(0, 5); if (r.chance(1, 2)) tk = 2; if (tk == 0 || v < 0) tag = ""; else if (tk == 1) tag = r.pick(std::vector<string>{"NONE", "none", "None"}); else if (tk <= 4) tag = V[v].tag.empty() ? "NONE" : V[v].tag.substr(1); else tag = r.pick(std::vector<string>{"wrong", "MODEL7", " ", "x"});
        bool def = r.chance(3, 4); string eff = tag; if (eff.empty()) { string f = path.substr(path.find_last_of('/') + 1); auto d = f.rfind('.'); if (d != string::npos && d > 0) f.resize(d); eff = lower(f); } string suffix = lower(eff) == "none" ? "" : "_" + eff;
        bool ok = v >= 0 && V[v].tag == suffix && V[v].q && V[v].in && V[v].out && (!def || V[v].main);
        what = string(viaLoad ? "loadModel(" : "construct(") + path.substr(root.size() < path.size() ? root.size() : 0) + ", tag '" + tag + "', default " + (def ? "1" : "0") + ") of " + (v < 0 ? "no library" : V[v].id); h = mixh(h, hashStr(what.substr(what.find("tag"))));
        bool wasInit = s.s && s.init; bool wasMapped = mapped(path); string oldPath = s.path;
        call([&] { if (viaLoad) s.s->loadModel(path, tag, def); else s.s.reset(new ExecutionSession(path, tag, def)); });
        if (foreign) bad("foreign-exception");
        if (wasInit) { if (!threw) bad("initialised-twice"); M->count("second_load_rejected"); if (oldPath != s.s->getSharedLibPath()) bad("path-changed"); }
        else if (ok) {
          M->count("loads"); if (threw) bad("load-failed"); else { s.init = true; s.path = path; s.v = v; s.suffix = suffix; s.entry = def ? "run_main_graph" + suffix : "";
            if (s.s->getSharedLibPath() != path) bad("shared-lib-path", s.s->getSharedLibPath());
            if (errno != 0) bad("errno-after-load", std::to_string(errno)); }
          if (!wasMapped) { if (std::count(events.begin(), events.end(), V[v].id + ":ctor") != 1) bad("constructors"); string want = hasEnv ? envVal : path.substr(0, path.find_last_of('/')); if (!ctorPathSet || ctorPath != want) bad("constant-path-during-load", "'" + ctorPath + "' expected '" + want + "'"); }
        } else {
          M->count("failed_loads"); if (!threw) { bad("load-succeeded-wrongly"); s.s.reset(); } else if (err.empty()) bad("empty-message");
          else { string sym; if (v < 0) sym = path; else { auto miss = [&](bool has, string n) { if (sym.empty() && (!has || V[v].tag != suffix)) sym = n + suffix; }; miss(V[v].q, "omQueryEntryPoints"); miss(V[v].in, "omInputSignature"); miss(V[v].out, "omOutputSignature"); miss(V[v].main, "run_main_graph"); }
            if (err.find(sym) == string::npos) bad("message-does-not-name-cause", sym); }
          if (!refs(path) && mapped(path)) bad("library-kept-after-failed-load", path);
          if (viaLoad && s.s) { s.entry = ""; bool t2 = false; try { s.s->compilationInfo(); } catch (ExecutionSessionException &) { t2 = true; } if (!t2) bad("initialised-after-failed-load"); }
        }
        const char *e = getenv("OM_CONSTANT_PATH"); if ((e != nullptr) != hasEnv || (e && envVal != e)) bad("environment-changed", e ? e : "(unset)");
      }
    } else if (s.s) {
      Variant none{"", "", "", 0, 0, 0, 0, 0, 0}; const Variant &v = s.init ? V[s.v] : none;
      if (op == 2) { what = "queryEntryPoints"; int64_t n = -1; bool np = r.chance(1, 4); const char **e = nullptr; call([&] { e = s.s->queryEntryPoints(np ? nullptr : &n); }); if (foreign) bad("foreign-exception"); if (threw != !s.init) bad("query-outcome"); if (!threw) { if ((!np && n != 2) || string(e[0]) != "run_main_graph" + s.suffix || string(e[1]) != "run_second" + s.suffix || e[2]) bad("entry-points"); } }
      else if (op == 3) { string n = r.pick(std::vector<string>{"run_second" + s.suffix, "run_main_graph" + s.suffix, "run_hidden" + s.suffix, "run_nothing", "", "run_second_zz"}); what = "setEntryPoint(" + n + ")"; call([&] { s.s->setEntryPoint(n); }); if (foreign) bad("foreign-exception"); bool ok = s.init && (n == "run_second" + s.suffix || n == "run_hidden" + s.suffix || (n == "run_main_graph" + s.suffix && v.main)); if (threw == ok) bad("set-entry-point"); if (ok) s.entry = n; else if (s.init) { if (err.find("'" + n + "'") == string::npos) bad("message-does-not-name-cause", n); /* which entry stays selected after a failure is not specified: select again */ string again = "run_second" + s.suffix; s.s->setEntryPoint(again); s.entry = again; } }
      else if (op == 4) { what = "signatures"; string a, b; bool ta, tb; call([&] { a = s.s->inputSignature(); }); ta = threw; if (foreign) bad("foreign-exception"); call([&] { b = s.s->outputSignature(); }); tb = threw; if (foreign) bad("foreign-exception"); string sec = "run_second" + s.suffix, mn = "run_main_graph" + s.suffix;
        bool ok = s.init && (s.entry == sec || s.entry == mn); if (ta == ok || tb == ok) bad("signature-outcome", s.entry); else if (ok) { string wi = string("[ in ") + (s.entry == sec ? "second" : "main") + " of " + v.id + v.tag + " ]", wo = s.entry == sec ? "" : "[ out main of " + v.id + v.tag + " ]"; if (a != wi || b != wo) bad("signature", a + " / " + b); } }
      else if (op == 5) { what = "compilationInfo"; string a; call([&] { a = s.s->compilationInfo(); }); if (foreign) bad("foreign-exception"); if (threw != !s.init) bad("info-outcome"); if (!threw && a != (v.info ? "{ info of " + v.id + v.tag + " }" : "{}")) bad("compilation-info", a); }
      else if (op == 6) { what = "printInstrumentation"; call([&] { s.s->printInstrumentation(); }); if (foreign) bad("foreign-exception"); if (threw != !s.init) bad("print-outcome"); if (!threw && (int)std::count(events.begin(), events.end(), v.id + ":print") != (v.print ? 1 : 0)) bad("print-count"); }
      else { // run, three interfaces
        int ni = r.in(0, 4), no = r.in(0, 4); std::vector<OMTensor *> in, out; for (int i = 0; i < ni; ++i) in.push_back(mk(r)); bool can = s.init && !s.entry.empty(); runErr = r.chance(1, 4) ? r.pick(std::vector<int>{EPERM, ENOMEM, EINVAL, 0, EIO, 22}) : -1; runs = 0;
        if (can && runErr < 0) for (int i = 0; i < no; ++i) out.push_back(mk(r)); giveOut = out; OMTensorList *res = nullptr; bool good = can && runErr < 0; std::vector<OMTensorUniquePtr> outs; OMTensorList *lin = nullptr; int kind = r.in(0, 2); what = fmt("run kind %d in %d out %zu err %d", kind, ni, out.size(), runErr); h = mixh(h, hashStr(what));
        if (kind == 0) { std::vector<OMTensorUniquePtr> ins; for (auto *t : in) ins.emplace_back(t, omTensorDestroy); call([&] { outs = s.s->run(std::move(ins)); }); }
        else { lin = omTensorListCreate(in.data(), in.size()); call([&] { res = kind == 1 ? s.s->run(lin) : s.s->runDebug(lin, r.chance(1, 2)); }); }
        if (foreign) bad("foreign-exception"); if (threw == good) bad("run-outcome"); if (runs != (can ? 1 : 0)) bad("model-calls", std::to_string(runs));
        if (can) { M->count("runs"); if (seenWho != v.id + "/" + s.entry) bad("wrong-entry", seenWho); if (seenTensors != in) bad("inputs-changed"); if (kind && seenList != lin) bad("input-list-changed"); }
        if (can && runErr >= 0 && threw) { M->count("model_failures"); if (err.find(std::to_string(runErr)) == string::npos || err.find(strerror(runErr)) == string::npos) bad("message-without-errno"); }
        if (good && !threw) { if (errno) bad("errno-after-run", std::to_string(errno)); std::vector<OMTensor *> got; if (kind == 0) for (auto &o : outs) got.push_back(o.get()); else for (int64_t i = 0; i < omTensorListGetSize(res); ++i) got.push_back(omTensorListGetOmtByIndex(res, i)); if (got != out) bad("outputs-changed"); if ((int)std::count(events.begin(), events.end(), v.id + ":print") != (v.print ? 1 : 0)) bad("instrumentation-after-run"); }
        if (kind) { // the caller still owns the inputs, and the outputs
          for (auto *t : in) if (omTensorGetBufferSize(t) && *(char *)omTensorGetDataPtr(t) != 7) bad("input-content"); omTensorListDestroy(lin); if (res) omTensorListDestroy(res); }
      }
      const char *e = getenv("OM_CONSTANT_PATH"); if ((e != nullptr) != hasEnv || (e && envVal != e)) bad("environment-changed", e ? e : "(unset)");
    }
    hist += what + "; "; h = mixh(h, op);
  }
  M->distinct(h); if (idx < 3) M->sample(hist);
  for (auto &s : ss) { string p = s.path; bool was = s.init; s.s.reset(); s.init = false; if (was && !refs(p) && mapped(p)) M->violate("library-kept-after-destroy", p); }
  unsetenv("OM_CONSTANT_PATH"); std::filesystem::remove_all(root);
}
int main(int argc, char **argv) { Mon m; M = &m;
  for (int i = 2; i < argc; ++i) { string f = argv[i], a[9]; size_t p = 0; for (int k = 0; k < 4; ++k) { size_t e = f.find('|', p); a[k] = f.substr(p, e == string::npos ? e : e - p); p = e + 1; } V.push_back({a[3], a[1], a[0], a[2].find('q') == string::npos, a[2].find('i') == string::npos, a[2].find('o') == string::npos, a[2].find('n') == string::npos, a[2].find('p') == string::npos, a[2].find('m') == string::npos}); }
  M->run("sessions", atol(argv[1]), oneCase); return m.finish(); }
