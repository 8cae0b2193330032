// P03/P04: omTensorSort, quick_sort_custom and omTensorTopK against a stable reference.
#include "mon.hpp"
#include "typed.hpp"
#include "OnnxMlirRuntime.h"
extern "C" {
#include "src/Runtime/OMSort.h"
}
#include <algorithm>
static Mon *M; static bool topk;
static const int TY[] = {typed::BOOL, typed::U8, typed::I8, typed::U16, typed::I16, typed::U32, typed::I32, typed::U64, typed::I64, typed::F32, typed::F64, typed::F16};

static void oneCase(Rng &r, long idx) {
  int t = TY[idx % 12]; int sz = typed::size(t);
  int rank = r.in(1, 6); std::vector<int64_t> sh(rank), st(rank); int64_t outer = 1;
  int64_t n = r.chance(1, 15) ? 0 : r.chance(1, 8) ? 1 : r.chance(1, 10) ? r.in(200, 1500) : r.in(2, 40);
  for (int i = 0; i < rank - 1; ++i) { int64_t d = outer > 60 ? 1 : r.chance(1, 14) ? 0 : r.in(1, 4); sh[i] = d; outer *= d; }
  if (n > 200 && outer > 6) n = r.in(2, 30);
  sh[rank - 1] = n;
  // layout: inner stride 1, outer dims possibly padded
  bool padded = r.chance(1, 3); int64_t p = 1;
  for (int i = rank - 1; i >= 0; --i) { st[i] = p; p *= std::max<int64_t>(sh[i], 1) + (padded && i < rank ? r.in(0, 2) : 0); }
  if (!padded) { p = 1; for (int i = rank - 1; i >= 0; --i) { st[i] = p; p *= sh[i]; } }
  int64_t total = 0; { bool empty = false; int64_t last = 0; for (int i = 0; i < rank; ++i) { if (!sh[i]) empty = true; last += (sh[i] - 1) * st[i]; } total = empty ? 0 : last + 1; }
  int profile = r.in(0, 4); bool nan = r.chance(1, 12) && profile == 1;
  char *data = (char *)malloc(total * sz + (total ? 0 : 1)); for (int64_t i = 0; i < total; ++i) typed::gen(r, t, data + i * sz, profile, nan);
  bool anyNan = false; for (int64_t i = 0; i < total; ++i) { long double k = typed::key(t, data + i * sz); if (k != k) anyNan = true; }
  uint64_t *order = (uint64_t *)malloc(total * 8 + (total ? 0 : 1)); for (int64_t i = 0; i < total; ++i) order[i] = 0xABCDEF0000000000ull + i;
  std::vector<int64_t> offs; std::vector<int64_t> ix(rank, 0);
  for (int64_t o = 0; o < outer && n > 0; ++o) { int64_t rem = o, off = 0; for (int i = rank - 2; i >= 0; --i) { off += (rem % sh[i]) * st[i]; rem /= sh[i]; } offs.push_back(off); }
  bool shuffled = !topk && r.chance(1, 3); 
  for (auto off : offs) { std::vector<uint64_t> id(n); for (int64_t i = 0; i < n; ++i) id[i] = i; if (shuffled) r.shuffle(id); for (int64_t i = 0; i < n; ++i) order[off + i] = id[i]; }
  std::vector<char> dataCopy(data, data + total * sz); std::vector<uint64_t> orderCopy(order, order + total);
  uint64_t asc = r.in(0, 1), k = topk ? (r.chance(1, 10) ? 0 : r.chance(1, 8) ? n : r.chance(1, 4) ? (uint64_t)(n * 0.9) : r.in(0, n)) : 0, sorted = r.chance(3, 4);
  if (topk && k > (uint64_t)n) k = n;
  OMTensor *in = omTensorCreate(data, sh.data(), rank, (OM_DATA_TYPE)t), *ord = omTensorCreate(order, sh.data(), rank, ONNX_TYPE_INT64);
  omTensorSetStrides(in, st.data()); omTensorSetStrides(ord, st.data());
  std::string desc = fmt("%s %s shape ", topk ? fmt("topk k=%lu sorted=%lu", (unsigned long)k, (unsigned long)sorted).c_str() : "sort", typed::name(t)) + str(sh) + " strides " + str(st) + (asc ? " ascending" : " descending") + fmt(" profile %d", profile);
  if (topk) omTensorTopK(ord, in, rank - 1, asc, k, sorted); else omTensorSort(ord, in, rank - 1, asc);
  M->ev(); M->count(typed::name(t)); M->count("lanes", offs.size()); M->sample(desc);
  if (total && memcmp(dataCopy.data(), data, total * sz)) M->violate("input-modified", desc);
  std::vector<char> inLane(total, 0); for (auto off : offs) for (int64_t i = 0; i < n; ++i) inLane[off + i] = 1;
  for (int64_t i = 0; i < total; ++i) if (!inLane[i] && order[i] != orderCopy[i]) { M->violate("padding-written", desc); break; }
  for (auto off : offs) {
    std::vector<uint64_t> got(order + off, order + off + n);
    int64_t m = topk ? (int64_t)k : n;
    std::vector<char> seen(n, 0); bool perm = true;
    for (int64_t i = 0; i < m; ++i) { if (got[i] >= (uint64_t)n || seen[got[i]]) { perm = false; break; } seen[got[i]] = 1; }
    if (!perm) { M->violate("not-a-permutation", desc); break; }
    if (anyNan) { M->count("nan_lanes_permutation_only"); continue; }
    std::vector<uint64_t> want(n); for (int64_t i = 0; i < n; ++i) want[i] = i;
    std::vector<long double> ky(n); for (int64_t i = 0; i < n; ++i) ky[i] = typed::key(t, data + (off + i) * sz);
    std::stable_sort(want.begin(), want.end(), [&](uint64_t a, uint64_t b) { return asc ? ky[a] < ky[b] : ky[a] > ky[b]; });
    want.resize(m); got.resize(m);
    if (topk && !sorted) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
    if (got != want) {
      // value order right but ties wrong?
      bool vals = true; for (int64_t i = 0; i < m; ++i) if (ky[got[i]] != ky[want[i]]) vals = false;
      std::vector<uint64_t> g = got, w = want; g.resize(std::min<size_t>(g.size(), 12)); w.resize(std::min<size_t>(w.size(), 12));
      M->violate(vals ? "tie-order" : "wrong-order", desc + " got " + str(g) + " want " + str(w)); break; }
    if (n > 1) { uint64_t h = mixh(mixh(t, asc), k); for (auto x : want) h = mixh(h, x); M->distinct(h); }
  }
  omTensorDestroy(in); omTensorDestroy(ord); free(data); free(order);
}
// The portable quick sort used where qsort_r is missing, with every comparator.
static void quick(Rng &r, long idx) {
  int t = TY[idx % 12]; int sz = typed::size(t); int64_t n = r.chance(1, 12) ? 0 : r.chance(1, 8) ? 1 : r.chance(1, 10) ? r.in(500, 4000) : r.in(2, 60);
  int profile = r.in(0, 4); if (profile == 3 && n > 1000) n = 1000;
  char *data = (char *)malloc(n * sz + !n); for (int64_t i = 0; i < n; ++i) typed::gen(r, t, data + i * sz, profile);
  uint64_t *id = (uint64_t *)malloc(n * 8 + !n); std::vector<uint64_t> want(n); for (int64_t i = 0; i < n; ++i) want[i] = i; { auto w = want; if (r.chance(1, 2)) r.shuffle(w); memcpy(id, w.data(), n * 8); }
  uint64_t asc = r.in(0, 1);
  quick_sort_custom(id, n, 8, getCompareFunction(asc, (OM_DATA_TYPE)t), data);
  std::vector<long double> ky(n); for (int64_t i = 0; i < n; ++i) ky[i] = typed::key(t, data + i * sz);
  std::stable_sort(want.begin(), want.end(), [&](uint64_t a, uint64_t b) { return asc ? ky[a] < ky[b] : ky[a] > ky[b]; });
  M->ev(); M->count("quick_sort_custom");
  for (int64_t i = 0; i < n; ++i) if (id[i] != want[i]) { M->violate("quick-sort-order", fmt("%s n=%ld profile %d asc %lu at %ld", typed::name(t), (long)n, profile, (unsigned long)asc, (long)i)); break; }
  // comparator laws
  if (n > 1) { auto *f = getCompareFunction(asc, (OM_DATA_TYPE)t);
    for (int q = 0; q < 20; ++q) { uint64_t a = r.in(0, n - 1), b = r.in(0, n - 1); if (a == b) continue; int c = f(&a, &b, data), d = f(&b, &a, data);
      bool before = ky[a] == ky[b] ? a < b : asc ? ky[a] < ky[b] : ky[a] > ky[b];
      if ((c < 0) != before || (d < 0) == before) M->violate("comparator", fmt("%s %d %d", typed::name(t), c, d)); } }
  free(data); free(id);
}
int main(int argc, char **argv) {
  Mon m; M = &m; topk = !strcmp(argv[1], "topk"); long n = atol(argv[2]);
  m.run(topk ? "topk" : "sort", n, oneCase);
  if (!topk) m.run("quick", n / 2, quick);
  return m.finish();
}
