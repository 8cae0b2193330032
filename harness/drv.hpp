// Shared by the harnesses of the compiler driver.
#pragma once
#include "mon.hpp"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
using std::string; namespace fs = std::filesystem; using Strs = std::vector<string>;
static string slurp(const string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spit(const string &p, const string &s) { std::ofstream(p, std::ios::binary) << s; }
static string show(const Strs &v) { string s; for (auto &x : v) s += "<" + x + ">"; return s; }
struct Capture { int o[2]; string f; Capture(const string &d) : f(d + "/captured") { fflush(nullptr); o[0] = dup(1); o[1] = dup(2); int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); dup2(fd, 1); dup2(fd, 2); close(fd); }
  string end() { fflush(nullptr); dup2(o[0], 1); dup2(o[1], 2); close(o[0]); close(o[1]); return slurp(f); } };
// one token written in a random way that a shell (and the documentation) reads as the same text
static string quote(Rng &r, const string &t) {
  string s; char mode = 0;
  for (size_t i = 0; i <= t.size(); ++i) {
    if (mode && (i == t.size() || r.chance(1, 6) || (mode == '\'' && (t[i] == '\'' || t[i] == '\\')))) { s += mode; mode = 0; }
    if (i == t.size()) break;
    char c = t[i];
    if (!mode && r.chance(1, 5) && c != '\'' && c != '\\') { mode = r.chance(1, 2) ? '"' : '\''; s += mode; }
    bool special = c == '\\' || (mode ? c == mode : (c == '"' || c == '\'' || isspace((unsigned char)c)));
    if (mode == '"' && c == '\'') special = false;
    if (special || (!mode && r.chance(1, 25))) s += '\\';
    s += c; }
  return s; }
