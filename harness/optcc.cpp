// A compiler that understands the real options and writes the files the real one would write.
#include "omopt.hpp"
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <unistd.h>
int main(int argc, char **argv) {
  std::vector<std::string> a(argv + 1, argv + argc); if (argc == 2 && a[0] == "--version") return 0;
  const char *rec = getenv("OPTCC_REC"); Parsed p = parseAsCompiler(a); if (!p.ok) return 13;
  if (access(p.input.c_str(), R_OK)) return 3;
  auto put = [](const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; o.close(); return bool(o); };
  std::ifstream in(p.input, std::ios::binary); std::string model((std::istreambuf_iterator<char>(in)), {});
  if (!put(p.base + p.ext, "compiled " + model)) return 4;
  if (getenv("OPTCC_CONST") && !put(p.base + ".constants.bin", "constants " + model)) return 4;
  if (rec) { std::string r; for (auto &x : a) r += x + '\0'; put(rec, r); }
  return 0; }
