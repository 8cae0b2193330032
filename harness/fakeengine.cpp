// Stands for docker and podman, and (as "incc") for the compiler inside of a container.
// ENGINE_DIR holds: images (one per line), rec (log of calls), rc-<verb> (exit status forced for a verb), prefix (host prefix of nested containers), root (scratch root).
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include "omopt.hpp"
namespace fs = std::filesystem; using std::string; using Strs = std::vector<string>;
static string slurp(const string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static string E() { const char *e = getenv("ENGINE_DIR"); return e ? e : "/nonexistent"; }
static void rec(const string &kind, const Strs &v) { string s = kind; for (auto &x : v) s += '\0' + x; s += "\n\1\n"; int fd = open((E() + "/rec").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644); if (write(fd, s.data(), s.size())) {} close(fd); }
static int forced(const string &verb) { string s = slurp(E() + "/rc-" + verb); return s.empty() ? 0 : atoi(s.c_str()); }
static bool under(const string &p, const string &d) { return d == "/" || (p.compare(0, d.size(), d) == 0 && (p.size() == d.size() || p[d.size()] == '/')); }
static string trim(string s) { while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
// the file of the host a path inside of the container names, or "" for none
static string toHost(const string &in, const Strs &mounts) {
  if (in.empty() || in[0] != '/') return ""; // relative to a directory of the container
  string p = trim(fs::path(in).lexically_normal().string()), best, host; bool found = false;
  for (auto &m : mounts) { size_t c = m.find(':'), c2 = m.find(':', c + 1); string h = m.substr(0, c), d = trim(fs::path(m.substr(c + 1, c2 - c - 1)).lexically_normal().string());
    if (h.empty() || h[0] != '/' || !under(p, d) || (found && d.size() <= best.size())) continue; found = true; best = d; host = h; }
  if (!found) return "";
  string pre = slurp(E() + "/prefix"), root = slurp(E() + "/root"); // the engine runs on the host: its paths have the prefix
  if (!pre.empty()) { if (host.compare(0, pre.size(), pre) != 0) return ""; string rest = fs::path("/" + host.substr(pre.size())).lexically_normal().string(); while (rest.compare(0, 2, "//") == 0) rest.erase(0, 1); if (under(rest, root)) host = rest; }
  if (!fs::is_directory(host)) return "";
  return best == "/" ? host + p : host + p.substr(best.size()); }
static int compilerInContainer(Strs a, const Strs &mounts) {
  rec("compiler", a); std::cout << "container compiler says hello" << std::endl; std::cerr << "container compiler warns" << std::endl;
  if (int f = forced("compiler")) return f;
  Parsed p = parseAsCompiler(a); if (!p.ok) return 13;
  string in = toHost(p.input, mounts), out = toHost(p.base + p.ext, mounts), cs = toHost(p.base + ".constants.bin", mounts);
  if (in.empty() || access(in.c_str(), R_OK) || fs::is_symlink(in)) return 3;
  if (out.empty()) return 0; // written, but into the container's own file system
  std::ofstream o(out, std::ios::binary); o << "compiled " << slurp(in); o.close(); if (!o) return 4;
  if (fs::exists(E() + "/constants") && !cs.empty()) { std::ofstream c(cs, std::ios::binary); c << "constants"; }
  return 0; }
int main(int argc, char **argv) {
  string me = fs::path(argv[0]).filename().string(); Strs a(argv + 1, argv + argc);
  if (me == "incc") { Strs mounts; std::istringstream m(getenv("IN_MOUNTS") ? getenv("IN_MOUNTS") : ""); string l; while (std::getline(m, l)) mounts.push_back(l); return compilerInContainer(a, mounts); }
  rec(me, a);
  auto known = [](const string &i) { std::istringstream s(slurp(E() + "/images")); string l; while (std::getline(s, l)) if (l == i) return true; return false; };
  if (a.empty()) return 64;
  if (a[0] == "--version") { std::cout << me << " version 1" << std::endl; return forced(me + "-version"); }
  if (a[0] == "info") return forced("info");
  if (a[0] == "images") { std::cout << (known(a.back()) ? "sha" : "") << std::endl; return 0; }
  if (a.size() >= 3 && a[0] == "image" && (a[1] == "inspect" || a[1] == "exists")) { std::cout << "[]" << std::endl; return known(a[2]) ? 0 : 1; }
  if (a[0] == "inspect") return known(a.back()) ? 0 : 1;
  if (a[0] == "pull") { if (int f = forced("pull")) return f; std::ofstream o(E() + "/images", std::ios::app); o << a.back() << "\n"; return 0; }
  if (a[0] != "run") return 125;
  if (int f = forced("run")) return f;
  Strs mounts; string entry; size_t i = 1;
  for (; i < a.size() && a[i].size() && a[i][0] == '-'; ++i) {
    string o = a[i], v; size_t eq = o.find('='); bool has = eq != string::npos; if (has) { v = o.substr(eq + 1); o = o.substr(0, eq); }
    if (o == "--rm" || o == "-i" || o == "--init") continue;
    if (!has) { if (++i >= a.size()) return 125; v = a[i]; }
    if (o == "-v" || o == "--volume") mounts.push_back(v); else if (o == "--entrypoint") entry = v; else if (o == "-u" || o == "--user" || o == "--platform" || o == "--name" || o == "-e" || o == "--env") {} else return 125; }
  if (i >= a.size() || !known(a[i])) return 125;
  Strs rest(a.begin() + i + 1, a.end()); rec("run-image", {a[i]}); rec("mounts", mounts);
  for (auto &m : mounts) { if (m.empty() || m[0] != '/') return 125; Strs f; std::istringstream s(m); string x; while (std::getline(s, x, ':')) f.push_back(x); if (f.size() < 2 || f.size() > 3 || f[1].empty() || f[1][0] != '/' || (f.size() == 3 && f[2] != "rw" && f[2] != "ro" && f[2] != "z" && f[2] != "Z")) return 125; }
  string ms; for (auto &m : mounts) ms += m + "\n"; setenv("IN_MOUNTS", ms.c_str(), 1); string cc = slurp(E() + "/compiler"), incc = E() + "/incc";
  string lost = E() + "/lost"; fs::create_directories(lost); if (chdir(lost.c_str())) return 125;
  string fn = cc + " () { \"" + incc + "\" \"$@\"; }; ";
  if (entry.empty()) { // the image's own entry point; only used to check that the compiler is there
    return !rest.empty() && rest[0] == cc ? 0 : 127; }
  if (entry != "sh" && entry != "/bin/sh" && entry != "bash" && entry != "/bin/bash") { if (entry != cc) return 127; return compilerInContainer(rest, mounts); }
  if (rest.size() < 2 || rest[0] != "-c") return 127;
  string script = fn + "eval \"$1\""; execl("/bin/bash", "bash", "-c", script.c_str(), "sh", rest[1].c_str(), (char *)0); return 126; }
