// P21: selection of operations and nodes against independent matchers.
#include "mon.hpp"
#include <algorithm>
#include <regex.h>
#include "src/Compiler/OptionUtils.hpp"
using namespace onnx_mlir; using std::string; using Strs = std::vector<string>; static Mon *M;
static const Strs NAMES = {"onnx.MatMul", "onnx.MatMulInteger", "onnx.Add", "onnx.Conv", "onnx.ConvTranspose", "onnx.QLinearConv", "krnl.memcpy", "zhigh.MatMul", "onnx.Custom", "onnxXMatMul", "onnx", "onnx.", "MatMul", "onnx.Mat", "onnx.onnx.Add", "", "*", ".", "onnx.*", "/model/layer.0/MatMul_1", "/model/layer.1/MatMul_1", "/model/layer_0/MatMul_1", "node:3", "a-b_c", "onnx.Add ", "x", "XX.YY", "onnx.LSTM", "onnx.Relu6", "Conv.onnx", "linalg.matmul", "onnx.matmul", "onnx.Ad", "onnx.Addd", "n"};
static bool glob(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') { for (;; ++s) { if (glob(p + 1, s)) return true; if (!*s) return false; } } return *s && *p == *s && glob(p + 1, s + 1); }
struct Item { string text; bool isRegex; };
static string mutate(Rng &r, string s) { int n = r.in(0, 2); for (int i = 0; i < n && !s.empty(); ++i) { size_t k = r.in(0, s.size() - 1); switch (r.in(0, 3)) { case 0: s[k] = "aMx._0C"[r.in(0, 6)]; break; case 1: s.erase(k, 1); break; case 2: s.insert(k, 1, "aMx._0C"[r.in(0, 6)]); break; default: s = s.substr(0, k); } } return s; }
static bool special(const string &s) { return s.find("ALL") != string::npos || s.find("NONE") != string::npos; }
static Item item(Rng &r) {
  for (;;) { string s = r.chance(1, 2) ? r.pick(NAMES) : mutate(r, r.pick(NAMES)); if (s.find(' ') != string::npos || s.find('*') != string::npos || s.empty()) continue;
    bool re = false; if (r.chance(1, 2)) { // wildcards
      int n = r.in(1, 2); for (int i = 0; i < n; ++i) { size_t a = r.in(0, s.size()), b = r.in(a, std::min(s.size(), a + 6)); s = s.substr(0, a) + "*" + s.substr(b); } if (s.find("**") != string::npos) continue; if (r.chance(1, 20)) s = "*"; re = s.find(".*") != string::npos; if (re && (std::count(s.begin(), s.end(), (char)42) != 1 || s[0] == 42)) continue; }
    else if (r.chance(1, 2)) { // a regular expression
      re = true; string t; bool used = false; for (char c : s) { if (c == '.' && r.chance(2, 3)) { t += "\\."; used = true; continue; } switch (r.in(0, 11)) { case 0: t += string("[") + c + "x]"; used = true; break; case 1: t += string(1, c) + "+"; used = true; break; case 2: t += string(1, c) + "?"; used = true; break; case 3: t += ".*"; used = true; break; case 4: t += string(1, c) + ".*"; used = true; break; default: t += c; } } if (r.chance(1, 6)) { t = "^" + t; used = true; } if (r.chance(1, 6)) { t += "$"; used = true; } if (!used) continue; s = t; }
    if (special(s) || s.size() > 60) continue; return {s, re}; } }
struct Model { bool all = false, none = false; std::vector<Item> items;
  bool enabled(const string &n) const { if (all) return true; if (none) return false; for (auto &i : items) { if (!i.isRegex) { if (glob(i.text.c_str(), n.c_str())) return true; } else { regex_t re; if (regcomp(&re, ("^(" + i.text + ")$").c_str(), REG_EXTENDED | REG_NOSUB)) { M->inconclusive("cannot compile " + i.text); continue; } bool ok = !regexec(&re, n.c_str(), 0, nullptr, 0); regfree(&re); if (ok) return true; } } return false; } };
static string option(Rng &r, Model &m, bool emptyIsNone) {
  m = Model(); if (r.chance(1, 12)) { (emptyIsNone ? m.none : m.all) = true; return ""; }
  int k = r.chance(1, 8) ? r.in(1, 2) : 0; if (k == 1) m.all = true; if (k == 2) m.none = true;
  int n = r.in(k ? 0 : 1, 5); Strs l; for (int i = 0; i < n; ++i) { m.items.push_back(item(r)); l.push_back(m.items.back().text); } if (k) l.insert(l.begin() + r.in(0, l.size()), k == 1 ? "ALL" : "NONE");
  string s; for (auto &x : l) s += (s.empty() ? "" : r.chance(1, 8) ? ", " : r.chance(1, 10) ? ",," : ",") + x; if (r.chance(1, 20)) s += ","; return s; }
static void history(Rng &r, long) {
  bool e = r.chance(1, 2); Model m; string s = option(r, m, e); bool late = r.chance(1, 3); EnableByRegexOption o(e, late ? (r.chance(1, 2) ? string() : option(r, m, e)) : s); if (late) { if (r.chance(1, 3)) o.setRegexString(option(r, m, e)); s = option(r, m, e); o.setRegexString(s); }
  std::unique_ptr<EnableByRegexOption> copy; int n = r.in(10, 60); std::map<string, bool> seen; uint64_t h = hashStr(s); M->sample(s);
  for (int i = 0; i < n; ++i) { string q = r.chance(1, 3) ? mutate(r, r.pick(NAMES)) : r.pick(NAMES); if (!m.items.empty() && r.chance(1, 6)) q = m.items[r.in(0, m.items.size() - 1)].text; if (r.chance(1, 15) && !copy) copy.reset(new EnableByRegexOption(o));
    EnableByRegexOption &t = copy && r.chance(1, 2) ? *copy : o; bool g = r.chance(1, 4) ? t.isEnabled(llvm::StringRef(q)) : t.isEnabled(q), w = m.enabled(q); M->ev(); M->distinct(mixh(h, hashStr(q))); M->count(w ? "enabled" : "disabled"); if (seen.count(q)) M->count("asked_again");
    if (g != w) M->violate(seen.count(q) ? "answer-again" : "answer", "'" + s + "'" + fmt(" (empty is none: %d) for '", e) + q + "': " + (g ? "enabled" : "disabled")); seen[q] = w; } }
int main(int argc, char **argv) { Mon m; M = &m; m.run("history", atol(argv[1]), history); return m.finish(); }
