// P07: perfect hash built by the compiler, looked up by the runtime.
#include "mon.hpp"
#include "src/Conversion/ONNXToKrnl/PerfectHash.hpp"
#include <set>
using namespace onnx_mlir;
extern "C" { uint64_t find_index_str(const char *, const int32_t G[], const int32_t V[], int32_t); uint64_t find_index_i64(int64_t, const int32_t G[], const int32_t V[], int32_t); }
static Mon *M;
template <class F> static void tables(const llvm::SmallVector<int32_t> &g, const llvm::SmallVector<int32_t> &v, size_t n, const std::string &d, F f) {
  if (g.size() != n || v.size() != n) { M->violate("table-size", d); return; }
  int32_t *G = (int32_t *)malloc(4 * n), *V = (int32_t *)malloc(4 * n); memcpy(G, g.data(), 4 * n); memcpy(V, v.data(), 4 * n);
  std::vector<char> seen(n, 0); for (size_t i = 0; i < n; ++i) { if (V[i] < 0 || (size_t)V[i] >= n || seen[V[i]]) { M->violate("not-minimal-perfect", d); break; } seen[V[i]] = 1; }
  f(G, V); free(G); free(V);
}
static void ints(Rng &r, long) {
  size_t n = r.chance(1, 20) ? r.in(500, 3000) : r.chance(1, 6) ? 1 : r.in(2, 120); int prof = r.in(0, 5); std::set<int64_t> ks; int64_t base = (int64_t)r.next();
  while (ks.size() < n) { int64_t k; switch (prof) { case 0: k = ks.size(); break; case 1: k = (int64_t)r.next(); break; case 2: k = INT64_MIN + (int64_t)ks.size(); break; case 3: k = r.in(-(int64_t)n * 3, n * 3); break; case 4: k = (int64_t)((uint64_t)base + ks.size() * 10); break; default: k = -1000000000000000000LL - r.in(0, 8000000000000000000LL); }
    if (r.chance(1, 50)) k = r.chance(1, 2) ? INT64_MIN : INT64_MAX; if (k > INT64_MAX - 10 && prof == 4) k = (int64_t)r.next(); if (!ks.insert(k).second && (prof == 0 || prof == 2 || prof == 4)) ks.insert((int64_t)r.next()); }
  std::vector<int64_t> keys(ks.begin(), ks.end()); r.shuffle(keys); std::map<int64_t, int32_t> dict; for (size_t i = 0; i < n; ++i) dict[keys[i]] = i; n = keys.size();
  PerfectHash<int64_t, int32_t> ph(dict); std::string d = fmt("int64 n=%zu profile %d", n, prof); M->sample(d + fmt(" first key %ld", (long)keys[0]));
  tables(ph.getG(), ph.getV(), n, d, [&](int32_t *G, int32_t *V) {
    for (size_t i = 0; i < n; ++i) { uint64_t x = find_index_i64(keys[i], G, V, n); M->ev(); if (x != i) { M->violate("int-index", d + fmt(" key %ld got %lu want %zu", (long)keys[i], (unsigned long)x, i)); break; } }
    for (int q = 0; q < 50; ++q) { int64_t k = r.chance(1, 4) ? (int64_t)((uint64_t)keys[r.in(0, n - 1)] + (uint64_t)r.in(-2, 2)) : (int64_t)r.next(); if (ks.count(k)) continue; uint64_t x = find_index_i64(k, G, V, n); M->ev(); M->count("absent_int_lookups"); if (x >= n) M->violate("absent-range", d); } });
  M->count("int_tables"); if (n > 1) { uint64_t h = n; for (auto k : ks) h = mixh(h, k); M->distinct(h); }
}
static void strs(Rng &r, long) {
  size_t n = r.chance(1, 20) ? r.in(300, 2000) : r.chance(1, 6) ? 1 : r.in(2, 120); int prof = r.in(0, 4); std::set<std::string> ks;
  auto gen = [&]() { std::string s; switch (prof) { case 0: return fmt("label_%lu", (unsigned long)r.in(0, n * 4)); case 1: { int l = r.in(0, 12); for (int i = 0; i < l; ++i) s += (char)r.in(1, 255); return s; } case 2: { int l = r.in(1, 3); for (int i = 0; i < l; ++i) s += (char)r.in(200, 255); return s + std::to_string(r.in(0, n)); } case 3: { int l = r.in(100, 900); s.assign(l, 'a'); s[r.in(0, l - 1)] = (char)r.in(1, 255); return s; } default: return std::to_string((int64_t)r.next()); } };
  if (r.chance(1, 4)) ks.insert(""); while (ks.size() < n) ks.insert(gen());
  std::vector<std::string> keys(ks.begin(), ks.end()); r.shuffle(keys); n = keys.size(); std::map<llvm::StringRef, int32_t> dict; for (size_t i = 0; i < n; ++i) dict[keys[i]] = i;
  PerfectHash<llvm::StringRef, int32_t> ph(dict); std::string d = fmt("string n=%zu profile %d", n, prof);
  tables(ph.getG(), ph.getV(), n, d, [&](int32_t *G, int32_t *V) {
    for (size_t i = 0; i < n; ++i) { char *k = strdup(keys[i].c_str()); uint64_t x = find_index_str(k, G, V, n); free(k); M->ev(); if (x != i) { M->violate("string-index", d + " key '" + Mon::clean(keys[i]) + fmt("' got %lu want %zu", (unsigned long)x, i)); break; } }
    for (int q = 0; q < 50; ++q) { std::string k = gen() + "?"; if (ks.count(k)) continue; uint64_t x = find_index_str(k.c_str(), G, V, n); M->ev(); M->count("absent_string_lookups"); if (x >= n) M->violate("absent-range", d); } });
  M->count("string_tables"); if (n > 1) { uint64_t h = n; for (auto &k : ks) h = mixh(h, hashStr(k)); M->distinct(h); }
}
int main(int argc, char **argv) { Mon m; M = &m; long n = atol(argv[1]); m.run("ints", n, ints); m.run("strings", n, strs); return m.finish(); }
