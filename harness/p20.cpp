// P20: container compiles against a fake engine whose containers see only what is mounted.
#include "drv.hpp"
#include "omopt.hpp"
#include "src/Compiler/OMCompile.hpp"
using namespace onnx_mlir; static Mon *M; static string ENGINE;
static const Strs FLAGS = {"-O3", "--EmitLib", "-EmitObj", "--EmitJNI", "--EmitMLIR", "-v", "--mcpu=z16", "--tag=a b", "--tag=it's", "--tag=a;touch pwned", "--tag=$HOME", "--tag=$(touch pwned)", "--tag=`id`", "--tag=a\"b", "--tag=\\", "--tag=*", "--tag=#x", "--tag=!x", "--tag=a&b|c", "--tag=<x>", "--tag=~", "--tag={a,b}", "--tag=x\ny", "--shapeInformation=0:-1x2,1:3", "--Xopt=-a -b", "--instrument-ops=onnx.*", "--mllvm=a  b", "--tag=%d@x+:", "--verifyInputTensors", "--tag=\xc3\xa9"};
static const Strs DIRS = {"", "sub", "my dir", "sub/deep", "it's", "q\"q", "a;b", "$HOME", "a&b", "`x`", "*", "(p)", "#h", "~t", "b\\s", "-dash", "\xc3\xa9"};
struct Call { string kind; Strs a; };
static std::vector<Call> calls(const string &f) { std::vector<Call> v; string s = slurp(f); size_t p = 0, e; while ((e = s.find("\n\1\n", p)) != string::npos) { string l = s.substr(p, e - p); p = e + 3; Strs x; size_t a = 0; for (size_t i = 0; i <= l.size(); ++i) if (i == l.size() || !l[i]) { x.push_back(l.substr(a, i - a)); a = i + 1; } v.push_back({x[0], Strs(x.begin() + 1, x.end())}); } return v; }
static Strs rest(const Strs &a, const string &in) { Strs r; for (size_t i = 0; i < a.size(); ++i) { if (a[i] == "-o" || a[i] == "--o") { ++i; continue; } if (a[i].rfind("-o=", 0) == 0 || a[i].rfind("--o=", 0) == 0 || a[i] == in) continue; r.push_back(a[i]); } return r; }
static void session(Rng &r, long i) {
  string root = M->tmp + fmt("/c%d-%ld", getpid(), i), ed = root + "/engine", bin = root + "/bin", work = root + "/work"; fs::create_directories(ed); fs::create_directories(bin); fs::create_directories(work); fs::current_path(work); root = fs::canonical(root).string(); ed = root + "/engine"; bin = root + "/bin"; work = root + "/work";
  fs::create_symlink(ENGINE, ed + "/incc"); setenv("ENGINE_DIR", ed.c_str(), 1); setenv("PATH", bin.c_str(), 1); setenv("OM_DIND_DISABLE", "1", 1); unsetenv("container"); unsetenv("OM_DOCKER_HOST_PATH_PREFIX"); spit(ed + "/root", root);
  bool d = r.chance(3, 4), p = r.chance(1, 2), dBad = r.chance(1, 8), pBad = r.chance(1, 8); if (d) fs::create_symlink(ENGINE, bin + "/docker"); if (p) fs::create_symlink(ENGINE, bin + "/podman"); if (dBad) spit(ed + "/rc-docker-version", "1"); if (pBad) spit(ed + "/rc-podman-version", "127");
  static const Strs IMGS = {"onnx-mlir", "ghcr.io/onnxmlir/onnx-mlir-dev", "ghcr.io/onnxmlir/onnx-mlir", "reg.example:5000/a/b:v1", "img@sha256:abc"}; string img = r.pick(IMGS), cc = img.rfind("ghcr", 0) == 0 ? "" : r.chance(1, 2) ? "onnx-mlir" : "/workdir/build/bin/onnx-mlir"; bool def = r.chance(1, 10); if (def) { img = "ghcr.io/onnxmlir/onnx-mlir"; cc = ""; }
  string effective = !cc.empty() ? cc : img == "ghcr.io/onnxmlir/onnx-mlir" ? "onnx-mlir" : "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir"; spit(ed + "/compiler", effective);
  bool have = r.chance(2, 3), autop = r.chance(1, 2), pullFails = r.chance(1, 4), verbose = r.chance(1, 6), nocc = r.chance(1, 25); spit(ed + "/images", string("other\n") + (have ? img + "\n" : "")); if (pullFails) spit(ed + "/rc-pull", "1"); if (nocc) { img = "unknown/image"; cc = ""; def = false; spit(ed + "/images", have ? img + "\n" : ""); }
  auto want = (OMCompile::ContainerEngine)r.pick(std::vector<int>{(int)OMCompile::ContainerEngine::Auto, (int)OMCompile::ContainerEngine::Auto, (int)OMCompile::ContainerEngine::Docker, (int)OMCompile::ContainerEngine::Podman}); using CE = OMCompile::ContainerEngine; bool dOk = d && !dBad, pOk = p && !pBad; string engine = want == CE::Docker ? (dOk ? "docker" : "") : want == CE::Podman ? (pOk ? "podman" : "") : dOk ? "docker" : pOk ? "podman" : "";
  bool ok = !engine.empty() && (have || (autop && !pullFails)) && !nocc; string setup = fmt("docker %d podman %d engine %d have %d autopull %d pull fails %d compiler '%s' image '%s'", dOk, pOk, (int)want, have, autop, pullFails, cc.c_str(), img.c_str()); M->ev(); M->distinct(hashStr(setup)); std::unique_ptr<OMCompile> s; string err; bool threw = false;
  { Capture cap(root); try { s.reset(new OMCompile(def ? "" : img, cc, want, autop, verbose)); } catch (OMCompileException &e) { threw = true; err = e.what(); } catch (std::exception &e) { threw = true; M->violate("foreign-exception", setup + ": " + e.what()); } cap.end(); }
  if (threw == ok) M->violate(ok ? "setup-fails" : "setup-succeeds", setup + ": " + err); if (threw && err.size() < 5) M->violate("no-message", setup); M->count(ok ? "sessions" : "failed_setups");
  int pulls = 0; for (auto &c : calls(ed + "/rec")) { if (c.kind != "docker" && c.kind != "podman") continue; if (!c.a.empty() && c.a[0] == "pull") { ++pulls; if (c.a.size() != 2 || c.a[1] != img) M->violate("pull", setup + ": pulls " + show(c.a)); } if (!engine.empty() && c.kind != engine && !(c.a.size() == 1 && c.a[0] == "--version")) M->violate("engine", setup + ": runs " + c.kind + show(c.a)); }
  if (!engine.empty() && pulls != (!have && autop)) M->violate("pull", setup + fmt(": %d pulls", pulls));
  if (!threw && ok) { if (s->getContainerEngineName() != engine || s->getMode() != OMCompile::CompilationMode::Container || s->isSuccessfullyCompiled()) M->violate("session", setup + ": " + s->getContainerEngineName());
  for (int step = 0, n = r.in(2, 5); step < n; ++step) {
    string base = work + fmt("/w%d", step); fs::create_directories(base + "/cwd"); string cwd = base + "/cwd"; bool linked = r.chance(1, 6); if (linked) { fs::create_directory_symlink("cwd", base + "/link"); fs::current_path(base + "/link"); } else fs::current_path(cwd);
    auto place = [&](string &pathArg) { string dn = r.pick(DIRS); bool up = r.chance(1, 8), abs = r.chance(1, 2); string real = (up ? base : cwd) + (dn.empty() ? "" : "/" + dn); fs::create_directories(real); pathArg = (abs ? (up ? base : cwd) : up ? ".." : r.chance(1, 4) ? "." : "") ; pathArg += (pathArg.empty() || dn.empty() ? "" : "/") + dn; if (!pathArg.empty()) pathArg += "/"; if (!dn.empty() && r.chance(1, 10)) { string l = base + fmt("/l%d", (int)r.in(0, 1 << 30)); fs::create_directory_symlink(real, l); pathArg = l + "/"; } if (r.chance(1, 12)) { fs::create_directories(real + "/x"); pathArg += "x/../"; } return real; };
    static const Strs NAMES = {"m.onnx", "my net.mlir", "a.b.onnx", "it's.onnx", "q\"q.onnxtext", "x;y.onnx", "$x.onnx", "a&b.mlir", "`z`.onnx", "*.onnx", "b\\s.onnx"}; string marg, name = r.pick(NAMES); place(marg); string model = marg + name; if (model[0] == '-') model = "./" + model; bool inFlags = r.chance(1, 3); string content = fmt("model %ld %d", i, step); spit(model, content);
    bool symModel = r.chance(1, 25); if (symModel) { fs::create_directories(base + "/elsewhere"); spit(base + "/elsewhere/real.onnx", content); fs::remove(model); fs::create_symlink(base + "/elsewhere/real.onnx", model); }
    Strs toks; bool tag = false, emit = false; for (int k = 0, m = r.in(0, 5); k < m; ++k) { string t = r.pick(FLAGS); if (t.rfind("--tag", 0) == 0) { if (tag) continue; tag = true; } if (t.rfind("--Emit", 0) == 0 || t.rfind("-Emit", 0) == 0) { if (emit) continue; emit = true; } toks.push_back(t); }
    string outDir, outArg; bool noOut = false; if (r.chance(2, 3)) { static const Strs ON = {"out", "o ut", "x.y", "o'o", "o\"o", "o;o", "$o", "o&o", "`o`", "o*", "-", ".", "o\\o"}; string oa; if (r.chance(1, 2)) outDir = place(oa); string on = r.pick(ON); outArg = oa + on; if (r.chance(1, 2)) { size_t at = r.in(0, toks.size()); toks.insert(toks.begin() + at, outArg); toks.insert(toks.begin() + at, r.chance(1, 2) ? "-o" : "--o"); } else toks.insert(toks.begin() + r.in(0, toks.size()), (r.chance(1, 2) ? "-o=" : "--o=") + outArg); }
    if (inFlags) { size_t at; do at = r.in(0, toks.size()); while (at > 0 && (toks[at - 1] == "-o" || toks[at - 1] == "--o")); toks.insert(toks.begin() + at, model); }
    string flags; for (auto &t : toks) flags += quote(r, t) + " ";
    string opath; if (r.chance(1, 4)) { place(opath); if (opath.empty()) opath = "."; }
    // what a local compile would do
    Strs largs = toks; if (!inFlags) largs.push_back(model); Parsed lp = parseAsCompiler(largs); string what = setup + " cwd=" + fs::current_path().string() + " " + show(toks) + " model=" + model + fmt(" in flags %d output path=", inFlags) + opath; if (!lp.ok || lp.input != model) { M->count("not_accepted_by_the_compiler"); continue; }
    string b = lp.base; if (!opath.empty()) { bool own = !onnx_mlir::outputBaseName.empty() && b == onnx_mlir::outputBaseName; string nm = own ? b : fs::path(model).stem().string(); if (!own || b.find('/') == string::npos) b = opath + (opath.back() == '/' ? "" : "/") + nm; }
    string expectFile = b + lp.ext; if (expectFile == model || fs::is_directory(expectFile) || !fs::is_directory(fs::path(expectFile).parent_path().empty() ? fs::path(".") : fs::path(expectFile).parent_path())) continue;
    bool existing = r.chance(1, 5); if (existing) spit(expectFile, "old"); else fs::remove(expectFile);
    bool cons = r.chance(1, 3); if (cons) spit(ed + "/constants", "1"); else fs::remove(ed + "/constants"); fs::remove(b + ".constants.bin");
    // faults
    int fault = r.chance(1, 4) ? r.in(1, 3) : 0; int rc = fault == 1 ? r.pick(std::vector<int>{125, 126, 127, 137, 1, 255}) : fault == 2 ? r.in(1, 19) : 0; fs::remove(ed + "/rc-run"); fs::remove(ed + "/rc-compiler"); if (fault == 1) spit(ed + "/rc-run", std::to_string(rc)); if (fault == 2) spit(ed + "/rc-compiler", std::to_string(rc)); if (fault == 3) fs::remove(model);
    // nested containers: the engine runs on a host whose paths have a prefix
    string prefix; bool nested = r.chance(1, 3); if (nested) { unsetenv("OM_DIND_DISABLE"); setenv("container", "docker", 1); prefix = r.pick(Strs{"", "/host", "/host/", "/mnt/my host", root.substr(0, root.size() - 2), root, root + "/work", root + "/wo", "/tm"}); if (prefix.empty()) unsetenv("OM_DOCKER_HOST_PATH_PREFIX"); else setenv("OM_DOCKER_HOST_PATH_PREFIX", prefix.c_str(), 1); } spit(ed + "/prefix", nested ? prefix : "");
    // another session without a cached answer
    std::unique_ptr<OMCompile> fresh; OMCompile *c = s.get(); if (nested) { setenv("OM_DIND_DISABLE", "1", 1); Capture cap(root); fresh.reset(new OMCompile(img, effective, want, false)); c = fresh.get(); cap.end(); unsetenv("OM_DIND_DISABLE"); }
    string log = r.chance(1, 2) ? root + "/log" : ""; fs::remove(root + "/log"); fs::remove(ed + "/rec"); fs::remove_all(ed + "/lost"); string before = fs::current_path().string(); M->ev(); M->distinct(mixh(hashStr(what), fault)); M->sample(what); what += fmt(" fault %d/%d prefix=", fault, rc) + prefix;
    bool th = false; string er, got; { Capture cap(root); try { c->compile(inFlags ? "" : model, flags, opath, "", log); } catch (OMCompileException &e) { th = true; er = e.what(); } catch (std::exception &e) { th = true; M->violate("foreign-exception", what + ": " + e.what()); } got = cap.end(); }
    if (nested) { setenv("OM_DIND_DISABLE", "1", 1); unsetenv("container"); unsetenv("OM_DOCKER_HOST_PATH_PREFIX"); }
    if (fs::current_path().string() != before) M->violate("caller-directory", what); if (fs::exists(ed + "/lost/pwned") || fs::exists("pwned")) M->violate("command-injection", what); fs::remove("pwned");
    std::vector<Call> cs = calls(ed + "/rec"); Call *cmp = nullptr; int runs = 0; for (auto &x : cs) { if (x.kind == "compiler") cmp = &x; if ((x.kind == "docker" || x.kind == "podman") && !x.a.empty() && x.a[0] == "run") { ++runs; if (x.kind != engine) M->violate("engine", what + ": " + x.kind); } if (x.kind == "run-image" && x.a[0] != img) M->violate("image", what + ": " + x.a[0]); }
    string key = symModel && fault != 3 ? "symlinked-model:" : ""; string trace; for (auto &x : cs) trace += x.kind + show(x.a) + " ";
    bool shouldWork = fault == 0; if (th == shouldWork) M->violate(key + (th ? "compile-fails" : "compile-succeeds"), what + ": " + er + " -- " + trace); if (th && er.size() < 5) M->violate("no-message", what);
    M->count(shouldWork ? "compiled" : "failed_compiles"); if (nested) M->count("nested"); if (!prefix.empty()) M->count("with_host_prefix");
    if (fault == 3 ? runs : runs != 1) M->violate("runs", what + fmt(": %d runs", runs));
    if (!fault || fault == 2) { if (!cmp) { M->violate(key + "not-started", what + ": " + trace); } else { Parsed ip = parseAsCompiler(cmp->a); Strs w = rest(toks, model), g = rest(cmp->a, ip.input); if (!ip.ok) M->violate("arguments", what + ": compiler got " + show(cmp->a)); else { if (w != g) M->violate("arguments", what + ": compiler got " + show(cmp->a)); if (ip.tag != lp.tag || ip.ext != lp.ext) M->violate("options", what + ": compiler got " + show(cmp->a)); } 
      string text = log.empty() ? got : slurp(log); if (text.find("container compiler says hello") == string::npos || text.find("container compiler warns") == string::npos || (!log.empty() && got.find("container compiler") != string::npos)) M->violate("log", what + ": " + text); } }
    if (th) { if (c->isSuccessfullyCompiled()) M->violate("state", what); try { string o = c->getOutputFilename(); M->violate("answer-after-failure", what + ": " + o); } catch (OMCompileException &) {} }
    else if (shouldWork) { std::error_code ec; string o = c->getOutputFilename(); if (!fs::equivalent(o, expectFile, ec)) M->violate(key + "output-name", what + ": announces " + o + ", local compile writes " + expectFile); else if (slurp(o) != "compiled " + content) M->violate(key + "output-content", what + ": " + slurp(o) + " -- " + trace);
      if (c->hasOutputConstantFilename() != cons) M->violate(key + "constants", what + " -- " + trace); string tg = c->getModelTag(); if (tg != lp.tag) M->violate("tag", what + ": " + tg); }
    fs::current_path(work); fs::remove_all(base); } }
  fs::current_path("/"); fs::remove_all(root); }
int main(int argc, char **argv) { unsetenv("ONNX_MLIR_FLAGS"); Mon m; M = &m; long n = atol(argv[1]); ENGINE = argv[2]; m.run("session", n, session, 60, 0, false); fflush(nullptr); int rc = m.finish(); _exit(rc); }
