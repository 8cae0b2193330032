// P19: what the driver announces against what the compiler's own option parser says and a compiler with that parser writes.
#include "drv.hpp"
#include "omopt.hpp"
#include "src/Compiler/OMCompile.hpp"
using namespace onnx_mlir; static Mon *M; static string CC;
static const Strs EMIT = {"EmitLib", "EmitObj", "EmitJNI", "EmitMLIR", "EmitLLVMIR", "EmitONNXIR", "EmitONNXBasic"};
static const Strs OTHER = {"-O3", "--O0", "-O2", "--mcpu=z16", "-march=z15", "--mtriple=x86_64-linux-gnu", "--shapeInformation=0:-1x2,1:3", "--dimParams=0:0=a,1=b", "-v", "--verifyInputTensors", "--parallel", "--instrument-ops=onnx.Conv,onnx.*", "--Xopt=-o=bad", "--Xopt=--tag=bad", "--Xllc=-o", "--mllvm=--EmitObj -o z", "--store-constants-to-file", "--store-constants-to-file=0", "--preserveMLIR", "--printIR=false", "--repeatOnnxTransform=2", "--enable-simd-data-layout", "--onnx-op-stats=TXT", "--instrument-signature=onnx.MatMul", "--replace-op-with-its-operand=-o", "--modelSize=large", "--disable-simd=true", "--O=1", "--opt-report=Simd", "--EmitLib=1", "--config-file="};
static const Strs SPACED = {"--mcpu", "-mcpu", "--march", "--mtriple", "--shapeInformation", "-Xopt", "--Xllc", "--mllvm", "--instrument-ops", "--parallelize-ops", "--dimParams", "--onnx-const-prop-disable-pattern", "--functions-to-decompose"};
static const Strs VALS = {"z16", "abc", "x,y", "0:1x2", "a b", "out", "tag", "o=x", "EmitObj", "model.txt", "lib.so"};
static const Strs DIRS = {"", "", "", "sub/", "./", "sub/../", "a.b/", "sub//", "A/", "my dir/"};
static const Strs STEMS = {"model", "m", "a.b", "net.v1.2", "my net", "o", "tag", "EmitObj", "x.onnx", "m.mlir", "caf\xc3\xa9", "-x", "--tag", "out.so", ".hidden", "a=b", "x.", "lib_JNI"};
static const Strs EXTS = {".onnx", ".mlir", ".onnxtext"};
struct Case { Strs toks; string model; bool inFlags; string out; };
static string rndName(Rng &r) { if (r.chance(1, 4)) { string s; int n = r.in(1, 8); for (int i = 0; i < n; ++i) { static const string a = "abcXYZ019._-+=@ o"; s += a[r.in(0, a.size() - 1)]; } return s; } return r.pick(STEMS); }
static Case make(Rng &r, const string &root) {
  Case c; c.inFlags = r.chance(1, 3); string d = r.pick(DIRS), stem = rndName(r); if (r.chance(1, 3)) d = root + "/" + d; if (d.empty() && stem[0] == '-') d = "./";
  c.model = d + stem + (c.inFlags || r.chance(5, 6) ? r.pick(EXTS) : string(".json")); int n = r.in(0, 5);
  for (int i = 0; i < n; ++i) { if (r.chance(1, 4)) { c.toks.push_back(r.pick(SPACED)); c.toks.push_back(r.pick(VALS)); } else c.toks.push_back(r.pick(OTHER)); }
  auto at = [&] { // between options, not between an option and its value
    std::vector<size_t> ok; for (size_t i = 0; i <= c.toks.size(); ++i) { bool val = i > 0 && (std::count(SPACED.begin(), SPACED.end(), c.toks[i - 1]) || c.toks[i - 1] == "-o" || c.toks[i - 1] == "--o" || c.toks[i - 1] == "-tag" || c.toks[i - 1] == "--tag") && i < c.toks.size(); if (!val) ok.push_back(i); } return c.toks.begin() + r.pick(ok); };
  auto opt = [&](const string &name, const string &v) { string dash = r.chance(1, 2) ? "-" : "--"; if (r.chance(1, 2) || v.empty()) c.toks.insert(at(), dash + name + "=" + v); else { size_t i = at() - c.toks.begin(); c.toks.insert(c.toks.begin() + i, v); c.toks.insert(c.toks.begin() + i, dash + name); } };
  if (r.chance(1, 2)) c.toks.insert(at(), (r.chance(1, 2) ? "-" : "--") + r.pick(EMIT));
  if (r.chance(1, 3)) opt("tag", r.chance(1, 10) ? "" : r.chance(1, 2) ? r.pick(Strs{"abc", "v1_2", "NONE", "o", "t.onnx", "a b", "-o", "-x"}) : rndName(r));
  if (r.chance(2, 3)) { static const Strs odd = {"-", ".", "..", "./", "sub/", "/", "...", "sub/..", "a/.", ""}; string dd = r.pick(DIRS); if (r.chance(1, 4)) dd = root + "/" + dd; string v = r.chance(1, 6) ? r.pick(odd) : dd + rndName(r) + (r.chance(1, 5) ? r.pick(Strs{".so", ".onnx", ".o", ".mlir"}) : string("")); opt("o", v); }
  if (c.inFlags) c.toks.insert(at(), c.model);
  if (r.chance(1, 3)) c.out = r.pick(Strs{"outdir", "out dir/", root + "/od", "./od", "a/b.c"});
  return c; }
static string text(Rng &r, const Strs &t) { string f; for (auto &x : t) f += (r.chance(1, 8) ? "  " : "") + quote(r, x) + (r.chance(1, 9) ? "\t" : " "); return f; }
static string norm(const string &p) { return fs::path(p).lexically_normal().string(); }
// what a session has to announce: absolute, the file the compiler writes
static bool expect(const Case &c, const string &cwd, Parsed &p, string &base) {
  Strs a = c.toks; for (auto &t : a) if (t.empty()) return false; // dropped by the driver, an argument for the compiler
  if (!c.inFlags) a.push_back(c.model);
  p = parseAsCompiler(a); if (!p.ok || p.input != c.model) return false;
  if (!c.out.empty() && fs::path(p.input).stem().string().find_first_not_of('.') == string::npos) return false; // no name to put there
  base = p.base;
  if (!c.out.empty()) { bool own = !onnx_mlir::outputBaseName.empty() && base == onnx_mlir::outputBaseName; string b = own ? base : fs::path(p.input).stem().string();
    if (!own || b.find('/') == string::npos) base = c.out + (c.out.back() == '/' ? "" : "/") + b; }
  if (base[0] != '/') base = cwd + "/" + base;
  return true; }
static void predict(Rng &r, long i) {
  static string cwd = fs::current_path().string();
  for (int k = 0; k < 40; ++k) { Case c = make(r, "/ro ot/x"); Parsed p; string base; if (!expect(c, cwd, p, base)) { M->count("not_accepted_by_the_compiler"); continue; }
    string f = text(r, c.toks), model = c.inFlags ? "" : c.model, what = show(c.toks) + " model=" + c.model + fmt(" in flags: %d, output path=", c.inFlags) + c.out; M->ev(); M->distinct(mixh(hashStr(show(c.toks)), hashStr(c.model + "|" + c.out))); M->sample(what); M->count("target:" + p.ext); if (c.inFlags) M->count("model_in_flags");
    try { string o = OMCompile::predictOutputFilename(model, f, c.out); if (o.empty() || o[0] != '/' || norm(o) != norm(base + p.ext)) M->violate("output-name", what + ": predicts " + o + ", the compiler writes " + base + p.ext);
      string in = OMCompile::predictInputFilename(model, f); if (in != p.input) M->violate("input-name", what + ": predicts " + in);
      string t = OMCompile::predictModelTag(f); if (t != p.tag) M->violate("tag", what + ": predicts " + t + ", the compiler uses " + p.tag);
    } catch (std::exception &e) { M->violate("prediction-fails", what + ": " + e.what()); } } }
static void session(Rng &r, long i) {
  string root = M->tmp + fmt("/s%d-%ld", getpid(), i); fs::create_directories(root + "/w"); fs::current_path(root + "/w"); OMCompile s(CC); string cwd = fs::current_path().string();
  for (int step = 0, n = r.in(2, 4); step < n; ++step) { Case c; Parsed p; string base; int tries = 0; while (c = make(r, root), !expect(c, cwd, p, base)) if (++tries > 50) return;
    bool consts = r.chance(1, 2); if (consts) setenv("OPTCC_CONST", "1", 1); else unsetenv("OPTCC_CONST");
    for (auto &d : DIRS) fs::create_directories(d.empty() ? "." : d); for (auto &d : DIRS) fs::create_directories(root + "/" + d);
    fs::create_directories(fs::path(base).parent_path()); spit(c.model, "model " + std::to_string(step)); string written = base + p.ext, cf = base + ".constants.bin"; if (written == c.model || fs::is_directory(written) || fs::is_directory(cf)) continue;
    fs::remove(written); fs::remove(cf); string f = text(r, c.toks), what = show(c.toks) + " model=" + c.model + fmt(" in flags: %d, output path=", c.inFlags) + c.out; M->ev(); M->distinct(mixh(hashStr(show(c.toks)), hashStr(c.model + "|" + c.out)));
    try { s.compile(c.inFlags ? "" : c.model, f, c.out, "", root + "/log"); } catch (std::exception &e) { M->violate("compile-fails", what + ": " + e.what()); continue; }
    string o = s.getOutputFilename(), k = s.getOutputConstantFilename(), t = s.getModelTag(); M->count("compiled"); if (consts) M->count("with_constants");
    std::error_code ec; if (o[0] != '/' || !fs::exists(written)) M->violate("output-name", what + ": announces " + o + ", expected " + written); else if (!fs::equivalent(o, written, ec)) M->violate("output-name", what + ": announces " + o + ", wrote " + written);
    else if (slurp(o) != "compiled model " + std::to_string(step)) M->violate("output-content", what + ": " + slurp(o));
    if (s.hasOutputConstantFilename() != consts || k.empty() != !consts) M->violate("constants-file", what + fmt(": constants written %d, announced '", consts) + k + "'");
    else if (consts && (k[0] != '/' || !fs::equivalent(k, cf, ec))) M->violate("constants-file", what + ": announces " + k + ", wrote " + cf);
    if (t != p.tag) M->violate("tag", what + ": " + t); 
    fs::remove(c.model); fs::remove(written); fs::remove(cf); }
  fs::current_path("/"); fs::remove_all(root); }
int main(int argc, char **argv) { unsetenv("ONNX_MLIR_FLAGS"); Mon m; M = &m; long n = atol(argv[1]); CC = argv[2]; fs::current_path(m.tmp);
  m.run("predict", n, predict, 60, 0, false); m.run("session", n / 8, session, 60, 0, false); fflush(nullptr); int rc = m.finish(); _exit(rc); }
