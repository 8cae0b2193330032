// P26: histories of the option API, the compiler configuration and JSON configuration objects, against models.
#include "mon.hpp"
#include "ExternalUtil.hpp"
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Compiler/JsonConfigObject.hpp"
#include <fstream>
#include <optional>
#include <sstream>
#include <sys/stat.h>
using namespace onnx_mlir; using std::string; using Strs = std::vector<string>; static Mon *M;
static const Strs W = {"a", "x86_64-apple-darwin", "z14", "arch12", "z15", "arch13", "z16", "arch14", "z17", "arch15", "arch11", "z13", "apple-m1", "apple-m4", "apple-m5", "native-ish", "-O3 -x", " lead", "a  b\tc ", "NONE", "k=v", "zażółć", "--opt=1", "systemz", "arch140", "Z16"};
static string join(const Strs &v, const char *s) { string o; for (size_t i = 0; i < v.size(); ++i) o += (i ? s : "") + v[i]; return o; }
static string show(const Strs &v) { return "[" + join(v, "|") + "]"; }
static void eq(const char *k, const string &got, const string &want, const string &h) { M->ev(); M->count("getters_compared"); if (got != want) M->violate(string("option:") + k, "'" + got + "' instead of '" + want + "' after " + h); }
static int znum(const string &s) { for (int i = 12; i <= 15; ++i) if (s == "arch" + std::to_string(i) || s == "z" + std::to_string(i + 2)) return i; return -1; }
struct Opts { string triple, arch, cpu, mllvm, tag, env; std::vector<int> accel; int level = 0; Strs opt, llc; bool v = false; };
static void audit(const Opts &m, const string &h) {
  string tr = m.triple.empty() ? (kDefaultTriple.empty() ? "" : "--mtriple=" + kDefaultTriple) : "--mtriple=" + m.triple; int z = znum(m.arch); if (z < 0) z = znum(m.cpu);
  eq("triple", getTargetTripleOption(), tr, h); eq("triple", getCompilerOption(OptionKind::TargetTriple), tr, h);
  eq("arch", getTargetArchOption(), m.arch.empty() ? "" : "--march=" + m.arch, h); eq("arch", getCompilerOption(OptionKind::TargetArch), m.arch.empty() ? "" : "--march=" + m.arch, h);
  bool apple = m.arch.size() == 8 && m.arch.compare(0, 7, "apple-m") == 0 && m.arch[7] >= '1' && m.arch[7] <= '4';
  eq("arch-llvm", getTargetArchOption(true), z >= 0 ? "--march=systemz" : apple ? "--march=arm64" : m.arch.empty() ? "" : "--march=" + m.arch, h);
  eq("cpu", getTargetCPUOption(), m.cpu.empty() ? "" : "--mcpu=" + m.cpu, h); eq("cpu", getTargetCPUOption(false, true), m.cpu, h); eq("cpu", getCompilerOption(OptionKind::TargetCPU), m.cpu.empty() ? "" : "--mcpu=" + m.cpu, h);
  string zc = "arch" + std::to_string(std::min(z, 14)); eq("cpu-llvm", getTargetCPUOption(true), z >= 0 ? "--mcpu=" + zc : m.cpu.empty() ? "" : "--mcpu=" + m.cpu, h); eq("cpu-llvm", getTargetCPUOption(true, true), z >= 0 ? zc : m.cpu, h);
  M->ev(); if (getZArchNum(m.arch, m.cpu) != z) M->violate("option:zarch", fmt("%ld instead of %d for ", (long)getZArchNum(m.arch, m.cpu), z) + m.arch + " " + m.cpu);
  string ac; for (int a : m.accel) { std::stringstream s; s << (accel::Accelerator::Kind)a; ac += (ac.empty() ? "--maccel=" : " --maccel=") + s.str(); } if (ac.empty()) ac = "--maccel=NONE"; eq("accel", getTargetAccel(), ac, h); eq("accel", getCompilerOption(OptionKind::TargetAccel), ac, h);
  if (!targetNoAccelerators()) M->violate("option:no-accelerators", h);
  string lv = "-O" + std::to_string(m.level); eq("level", getOptimizationLevelOption(), lv, h); eq("level", getCompilerOption(OptionKind::CompilerOptLevel), lv, h);
  eq("Xopt", show(getXoptOption()), show(m.opt), h); eq("Xopt", getCompilerOption(OptionKind::OPTFlag), join(m.opt, " "), h); eq("Xllc", show(getXllcOption()), show(m.llc), h); eq("Xllc", getCompilerOption(OptionKind::LLCFlag), join(m.llc, " "), h);
  eq("mllvm", getLLVMOption(), m.mllvm, h); eq("mllvm", getCompilerOption(OptionKind::LLVMFlag), m.mllvm, h); Strs sp; string cur; for (char c : m.mllvm + " ") if (isspace((unsigned char)c)) { if (!cur.empty()) sp.push_back(cur); cur.clear(); } else cur += c; eq("mllvm-split", show(getLLVMOptions()), show(sp), h);
  eq("tag", getCompilerOption(OptionKind::ModelTag), m.tag, h); eq("verbose", getCompilerOption(OptionKind::Verbose), m.v ? "-v" : "", h);
  eq("env", getCustomEnvVarOption(), m.env.empty() ? "" : "--customEnvFlags=" + m.env, h); }
static void options(Rng &r, long) {
  Opts m; m.triple = kDefaultTriple; string h = "start"; if (mtriple.empty()) m.triple = ""; audit(m, h); uint64_t hh = 1; int n = r.in(3, 25);
  auto one = [&](OptionKind k, const string &v) -> int { // the model; 0 accepted, 1 rejected
    switch (k) { case OptionKind::TargetTriple: m.triple = v; break; case OptionKind::TargetArch: m.arch = v; break; case OptionKind::TargetCPU: m.cpu = v; break;
    case OptionKind::TargetAccel: if (v != "NONE") return 1; m.accel.push_back((int)accel::Accelerator::Kind::NONE); break;
    case OptionKind::CompilerOptLevel: { if (v.size() != 1 || v[0] < '0' || v[0] > '3') return 1; m.level = v[0] - '0'; break; }
    case OptionKind::OPTFlag: m.opt.push_back(v); break; case OptionKind::LLCFlag: m.llc.push_back(v); break; case OptionKind::LLVMFlag: m.mllvm = v; break; case OptionKind::ModelTag: m.tag = v; break; case OptionKind::Verbose: m.v = true; break; } return 0; };
  auto val = [&](OptionKind k) -> string { if (k == OptionKind::CompilerOptLevel) return r.chance(3, 4) ? string(1, '0' + r.in(0, 3)) : r.pick(Strs{"4", "-1", "", "x", "O3", "3x", "99999999999999", " 2", "1.0", "0x1"}); if (k == OptionKind::TargetAccel) return r.chance(2, 3) ? "NONE" : r.pick(Strs{"NNPA2", "none", "NNP", "x", "NONE "}); bool may = k == OptionKind::OPTFlag || k == OptionKind::LLCFlag || k == OptionKind::LLVMFlag || k == OptionKind::ModelTag || k == OptionKind::Verbose; return may && r.chance(1, 10) ? "" : r.pick(W); };
  for (int i = 0; i < n; ++i) { OptionKind k = (OptionKind)r.in(0, 9); string v = val(k); int op = r.in(0, 9); hh = mixh(hh, op * 16 + k); hh = mixh(hh, hashStr(v));
    if (op < 5) { h += fmt(" set(%d,'", k) + v + "')"; int want = one(k, v), rc = setCompilerOption(k, v); if ((rc == CompilerSuccess) != !want) M->violate("set-result", fmt("%d for option %d ", rc, k) + v); if (want) M->count("rejected_values"); }
    else if (op < 7) { h += fmt(" clear(%d)", k); clearCompilerOption(k); switch (k) { case OptionKind::TargetTriple: m.triple = ""; break; case OptionKind::TargetArch: m.arch = ""; break; case OptionKind::TargetCPU: m.cpu = ""; break; case OptionKind::TargetAccel: m.accel.clear(); break; case OptionKind::CompilerOptLevel: m.level = 0; break; case OptionKind::OPTFlag: m.opt.clear(); break; case OptionKind::LLCFlag: m.llc.clear(); break; case OptionKind::LLVMFlag: m.mllvm = ""; break; case OptionKind::ModelTag: m.tag = ""; break; case OptionKind::Verbose: m.v = false; break; } }
    else if (op == 7) { CompilerOptionList l; int c = r.in(0, 5); h += " list("; bool bad = false; for (int j = 0; j < c; ++j) { OptionKind q = (OptionKind)r.in(0, 9); string w = val(q); l.push_back({q, w}); h += fmt("%d,'", q) + w + "' "; if (!bad) bad = one(q, w); } h += ")"; int rc = setCompilerOptions(l); if ((rc == CompilerSuccess) == bad) M->violate("set-list-result", h); }
    else if (op == 8) { Strs l; int c = r.in(0, 4); for (int j = 0; j < c; ++j) l.push_back(r.pick(W)); h += " flags" + show(l); if (r.chance(1, 2)) { setXoptOption(l); m.opt.insert(m.opt.end(), l.begin(), l.end()); } else { setXllcOption(l); m.llc.insert(m.llc.end(), l.begin(), l.end()); } }
    else { h += " env"; if (r.chance(1, 3)) { clearCustomEnvVar(); m.env = ""; } else { m.env = r.pick(Strs{"A", "MY_FLAGS", "ONNX_MLIR_FLAGS"}); setCustomEnvVar(m.env); } }
    audit(m, h); }
  M->distinct(hh); M->sample(h); }
static const Strs LIBS = {"cruntime", "jniruntime", "m", "foo", "bar", "/a/b", "", "foo "};
static void config(Rng &r, long) {
  std::map<string, Strs> m; string h; int n = r.in(3, 25); uint64_t hh = 2;
  for (int i = 0; i < n; ++i) { string k = r.pick(Strs{CCM_SHARED_LIB_DEPS, CCM_SHARED_LIB_PATH_DEPS, "other", ""}); Strs v; int c = r.in(0, 3); for (int j = 0; j < c; ++j) v.push_back(r.pick(LIBS)); bool head = r.chance(1, 3), del = r.chance(1, 3);
    h += (del ? " del(" : head ? " head(" : " add(") + k + " " + show(v) + ")"; hh = mixh(hh, hashStr(h));
    if (del) { delCompilerConfig(k, v); Strs u; for (auto &x : m[k]) if (std::find(v.begin(), v.end(), x) == v.end()) u.push_back(x); m[k] = u; } else if (head) { addCompilerConfig(k, v, true); m[k].insert(m[k].begin(), v.begin(), v.end()); } else { r.chance(1, 2) ? addCompilerConfig(k, v) : addCompilerConfig(k, v, false); m[k].insert(m[k].end(), v.begin(), v.end()); }
    for (auto &q : Strs{CCM_SHARED_LIB_DEPS, CCM_SHARED_LIB_PATH_DEPS, "other", "", "unused"}) { M->ev(); if (show(getCompilerConfig(q)) != show(m[q])) M->violate("config", q + " is " + show(getCompilerConfig(q)) + " instead of " + show(m[q]) + " after" + h); } }
  M->distinct(hh);
  // instrumentation requests
  instrumentStage = r.chance(1, 2) ? Onnx : None; instrumentOps = r.pick(Strs{"", "NONE", "ALL", "onnx.Add", "none"}); instrumentSignatures = r.pick(Strs{"", "NONE", "ALL", "x"}); instrumentOnnxNode = r.pick(Strs{"", "NONE", "ALL", "x"});
  for (InstrumentStages s : {None, Onnx}) { auto on = [](const string &v) { return !v.empty() && v != "NONE"; }; M->ev(); bool a = s == instrumentStage && on(instrumentOps), b = s == instrumentStage && (on(instrumentSignatures) || on(instrumentOnnxNode)); if (hasInstrumentation(s) != a) M->violate("has-instrumentation", instrumentOps); if (hasSignatureInstrumentation(s) != b) M->violate("has-signature-instrumentation", instrumentSignatures + " " + instrumentOnnxNode); } }
// JSON
static llvm::json::Value tree(Rng &r, int d) { switch (r.in(0, d > 3 ? 5 : 8)) { case 0: return nullptr; case 1: return r.chance(1, 2); case 2: return (int64_t)r.pick(std::vector<int64_t>{0, -1, 7, INT64_MAX, INT64_MIN, 1ll << 53}); case 3: return r.pick(std::vector<double>{0.5, -1e300, 3.14159, 1e-10, 2.5e17}); case 4: case 5: return r.pick(Strs{"", "-O3", "quote\"d", "back\\slash", "tab\tnl\n", "zażółć 日本", "\x01\x1f", "/path/x", "😀"}); case 6: { llvm::json::Array a; int n = r.in(0, 4); for (int i = 0; i < n; ++i) a.push_back(tree(r, d + 1)); return a; } default: { llvm::json::Object o; int n = r.in(0, 4); for (int i = 0; i < n; ++i) o[r.pick(Strs{"a", "b", "", "key \"q\"", "ż", "compile_options", "x.y"})] = tree(r, d + 1); return o; } } }
static string text(const llvm::json::Value &v, Rng &r) { string s; llvm::raw_string_ostream o(s); if (r.chance(1, 2)) o << v; else o << llvm::formatv("{0:2}", v); return s; }
struct Peek : JsonConfigObject { const llvm::json::Object *get() const { return getJsonObject(); } };
static string slurp(const string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void json(Rng &r, long i) {
  string d = string(getenv("MON_TMP") ? getenv("MON_TMP") : "/tmp") + fmt("/p26json-%d", getpid()); mkdir(d.c_str(), 0700); Peek o; llvm::json::Object m; bool loaded = false; string path, h; int n = r.in(2, 12); int fresh = 0; uint64_t hh = 3; std::vector<string> made;
  auto audit = [&] { M->ev(); if (!o.get() || llvm::json::Value(llvm::json::Object(*o.get())) != llvm::json::Value(llvm::json::Object(m))) M->violate("json-content", h); if (o.isLoaded() != loaded) M->violate("json-loaded", h); if (o.getFilePath() != path) M->violate("json-path", "'" + o.getFilePath() + "' after" + h); if (o.empty() != m.empty()) M->violate("json-empty", h);
    for (const char *k : {"a", "b", "", "compile_options", "nothing"}) { auto *v = m.get(k); const llvm::json::Array *wa = v ? v->getAsArray() : nullptr; auto ws = v ? v->getAsString() : std::optional<llvm::StringRef>(); const Peek &co = o; auto *ga = co.getArray(k); auto *gb = o.getArray(k); if (ga != gb || !ga != !wa || (ga && !(*ga == *wa))) M->violate("json-array", string(k) + " after" + h); auto gs = o.getString(k); if (gs.has_value() != ws.has_value() || (gs && *gs != *ws)) M->violate("json-string", string(k) + " after" + h); }
    Strs args = {"before"}, want = args; bool ok = o.getCompileOptions(args), wok = false; bool decided = true; if (auto *v = m.get("compile_options")) if (auto *a = v->getAsArray()) { wok = !a->empty(); for (auto &x : *a) { if (auto s = x.getAsString()) want.push_back(s->str()); else decided = false; } } if (decided && (ok != wok || args != want)) M->violate("json-compile-options", show(args) + " instead of " + show(want) + " after" + h); };
  audit();
  for (int s = 0; s < n; ++s) { int op = r.in(0, 9);
    if (op < 5) { // load
      string p; llvm::json::Value doc = nullptr; int k = r.in(0, 7); bool good = false; string body;
      if (k == 0 && !made.empty()) { p = r.pick(made); body = slurp(p); if (auto v = llvm::json::parse(body)) { good = v->getAsObject(); doc = *v; } else llvm::consumeError(v.takeError()); }
      else { p = d + fmt("/f%d.json", fresh++); if (k == 1) p = d + "/absent/x.json"; else if (k == 2) p = r.chance(1, 2) ? d : ""; else { if (k == 3) doc = tree(r, 0); else { llvm::json::Object q; if (r.chance(3, 4)) { llvm::json::Array a; int c = r.in(0, 5); for (int j = 0; j < c; ++j) a.push_back(r.chance(1, 20) ? llvm::json::Value(3) : llvm::json::Value(r.pick(Strs{"-O3", "--march=z16", "x y", ""}))); q["compile_options"] = std::move(a); } for (int j = r.in(0, 3); j > 0; --j) q[r.pick(Strs{"a", "b", "", "ż"})] = tree(r, 1); doc = std::move(q); } body = text(doc, r); good = doc.getAsObject(); if (k == 4) { size_t cut = r.in(0, body.size()); body = body.substr(0, cut); if (auto v = llvm::json::parse(body)) { good = v->getAsObject(); doc = *v; } else { good = false; llvm::consumeError(v.takeError()); } } if (k == 5 && r.chance(1, 3)) { body += r.pick(Strs{"}", " x", ",", "\xff"}); good = false; } std::ofstream(p, std::ios::binary) << body; made.push_back(p); } }
      bool want = loaded ? p == path : good; h += " load(" + (p.size() > d.size() ? p.substr(d.size()) : p.empty() ? "nothing" : "dir") + fmt(",%d)", want); bool got = o.loadFromFile(p); M->count(want ? (loaded ? "loads_repeated" : "loads") : "loads_refused"); if (got != want) M->violate("json-load", h); if (!loaded && good) { loaded = true; path = p; m = *doc.getAsObject(); } }
    else if (op < 9) { string p = d + fmt("/s%d.json", fresh++); int k = r.in(0, 7); if (k == 0) p = d + "/absent/y.json"; else if (k == 1) p = "/dev/full"; else if (k == 2) p = d; else if (k == 3 && !made.empty()) { p = r.pick(made); } bool want = !m.empty() && k > 2; string before = k == 3 ? slurp(p) : ""; unsigned ind = r.in(0, 4); h += " store(" + p.substr(p.size() > d.size() && p[0] == d[0] ? d.size() : 0) + fmt(",%u)", ind); bool got = r.chance(1, 3) ? o.storeToFile(p) : o.storeToFile(p, ind); M->count(want ? "stores" : "stores_refused"); if (got != want) M->violate("json-store", h + fmt(" returns %d", got));
      if (want) { auto v = llvm::json::parse(slurp(p)); if (!v) { llvm::consumeError(v.takeError()); M->violate("json-stored-unreadable", h); } else if (*v != llvm::json::Value(llvm::json::Object(m))) M->violate("json-stored", h); Peek q; if (!q.loadFromFile(p) || llvm::json::Value(llvm::json::Object(*q.get())) != llvm::json::Value(llvm::json::Object(m))) M->violate("json-round-trip", h); made.push_back(p); } else if (k == 3 && slurp(p) != before) M->violate("json-refused-store-wrote", h); }
    else if (auto *a = o.getArray("a")) { h += " append"; a->push_back("added"); m.getArray("a")->push_back("added"); }
    hh = mixh(hh, hashStr(h)); audit(); }
  M->distinct(hh); M->sample(h); for (int j = 0; j < fresh; ++j) { unlink((d + fmt("/f%d.json", j)).c_str()); unlink((d + fmt("/s%d.json", j)).c_str()); } rmdir(d.c_str()); (void)i; }
int main(int argc, char **argv) { Mon m; M = &m; long n = atol(argv[1]); m.run("options", n / 2, options, 60, 1); m.run("config", n / 4, config, 60, 1); m.run("json", n / 4, json); return m.finish(); }
