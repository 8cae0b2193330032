// P05: omTensorUnique / omTensorUniqueCount against an independent model of ONNX Unique.
#include "mon.hpp"
#include "typed.hpp"
#include "OnnxMlirRuntime.h"
#include <algorithm>
extern "C" {
void omTensorUnique(OMTensor *total, OMTensor *Y, OMTensor *indices, OMTensor *inverse, OMTensor *counts, const OMTensor *in, int64_t axis, uint64_t sorted);
void omTensorUniqueCount(OMTensor *total, const OMTensor *in, int64_t axis, uint64_t sorted);
}
static Mon *M;
static const int TY[] = {typed::F32, typed::U8, typed::I8, typed::U16, typed::I16, typed::I32, typed::I64, typed::BOOL, typed::F64, typed::U32, typed::U64};

static void oneCase(Rng &r, long idx, bool big) {
  int t = TY[idx % 11], sz = typed::size(t);
  int rank = big ? r.in(1, 2) : r.in(1, 6);
  std::vector<int64_t> sh(rank); int64_t n = 1;
  for (auto &d : sh) { d = n > 300 ? 1 : r.chance(1, 12) ? 1 : r.in(1, rank > 3 ? 3 : 6); }
  bool empty = !big && r.chance(1, 20); if (empty) sh[r.in(0, rank - 1)] = 0;
  int axis = r.chance(1, 3) ? -1 : r.in(0, rank - 1);
  if (big) { axis = rank == 1 ? r.in(-1, 0) : r.in(-1, 1); for (auto &d : sh) d = 4; sh[axis < 0 ? 0 : axis] = axis < 0 ? 700000 : rank == 1 ? 1500000 : 400000; }
  for (auto d : sh) n *= d;
  int profile = big ? 0 : r.chance(1, 2) ? 0 : r.in(0, 4);
  std::vector<int64_t> st(rank); bool strided = axis >= 0 && !big && r.chance(1, 3); int64_t p = 1;
  std::vector<int> perm(rank); for (int i = 0; i < rank; ++i) perm[i] = rank - 1 - i; if (strided && r.chance(1, 2)) r.shuffle(perm);
  for (int i = 0; i < rank; ++i) { st[perm[i]] = p; p *= sh[perm[i]]; if (strided && r.chance(1, 3)) p += r.in(0, 2); }
  int64_t total = 0; if (n) { for (int i = 0; i < rank; ++i) total += (sh[i] - 1) * st[i]; ++total; }
  char *data = (char *)malloc(std::max<int64_t>(total, 0) * sz + !total);
  for (int64_t i = 0; i < total; ++i) typed::gen(r, t, data + i * sz, profile);
  if ((t == typed::F32 || t == typed::F64) && profile == 0) for (int64_t i = 0; i < total; ++i) if (typed::key(t, data + i * sz) == 0 && r.chance(1, 2)) data[i * sz + sz - 1] ^= 0x80;
  // duplicate some slices outright so that axis cases have equal slices
  int64_t slices = axis < 0 ? n : sh[axis], per = axis < 0 ? 1 : slices ? n / slices : 0; if (axis >= 0) { per = 1; for (int i = 0; i < rank; ++i) if (i != axis) per *= sh[i]; }
  auto offOf = [&](int64_t s, int64_t e) { // element e (row-major over other dims) of slice s
    if (axis < 0) { int64_t rem = s, o = 0; for (int i = rank - 1; i >= 0; --i) { o += (rem % sh[i]) * st[i]; rem /= sh[i]; } return o; }
    int64_t o = s * st[axis]; for (int i = rank - 1; i >= 0; --i) if (i != axis) { o += (e % sh[i]) * st[i]; e /= sh[i]; } return o; };
  if (axis >= 0 && n) for (int64_t s = 1; s < std::min<int64_t>(slices, 64); ++s) if (r.chance(1, 3)) { int64_t from = r.in(0, s - 1); for (int64_t e = 0; e < per; ++e) memcpy(data + offOf(s, e) * sz, data + offOf(from, e) * sz, sz);
    if (per > 1 && r.chance(1, 3)) typed::gen(r, t, data + offOf(s, r.in(0, per - 1)) * sz, profile); }
  if (big) for (int64_t i = 4 * 40; i < total; ++i) memcpy(data + i * sz, data + (i % 8) * sz, sz);
  uint64_t sorted = r.in(0, 1);
  std::vector<char> copy(data, data + total * sz);
  // reference
  std::vector<int64_t> first, cnt, inv(slices, -1); int64_t lim = slices;
  auto cmp = [&](int64_t a, int64_t b) { for (int64_t e = 0; e < per; ++e) { long double x = typed::key(t, data + offOf(a, e) * sz), y = typed::key(t, data + offOf(b, e) * sz); if (x < y) return -1; if (x > y) return 1; } return 0; };
  for (int64_t s = 0; s < lim; ++s) { size_t u = 0; for (; u < first.size(); ++u) if (!cmp(first[u], s)) break; if (u == first.size()) { first.push_back(s); cnt.push_back(0); } cnt[u]++; inv[s] = u; }
  if (sorted) { std::vector<int64_t> o(first.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](int64_t a, int64_t b) { return cmp(first[a], first[b]) < 0; });
    std::vector<int64_t> f2, c2, pos(o.size()); for (size_t i = 0; i < o.size(); ++i) { f2.push_back(first[o[i]]); c2.push_back(cnt[o[i]]); pos[o[i]] = i; } first = f2; cnt = c2; for (auto &x : inv) x = pos[x]; }
  int64_t U = first.size();
  std::string desc = fmt("%s axis %d sorted %lu profile %d shape ", typed::name(t), axis, (unsigned long)sorted, profile) + str(sh) + (strided ? " strides " + str(st) : "");
  OMTensor *in = omTensorCreate(data, sh.data(), rank, (OM_DATA_TYPE)t); omTensorSetStrides(in, st.data());
  int64_t *tot = (int64_t *)malloc(8); *tot = -5; OMTensor *tt = omTensorCreate(tot, nullptr, 0, ONNX_TYPE_INT64);
  omTensorUniqueCount(tt, in, axis, sorted);
  M->ev(); M->count(axis < 0 ? "flattened" : "along_axis"); M->count(typed::name(t)); M->sample(desc);
  if (n && *tot != U) M->violate("count", desc + fmt(" got %ld want %ld", (long)*tot, (long)U));
  if (!n && per && *tot != 0) M->violate("count-empty", desc);
  if (n) {
    // how each output is requested: 0 NULL, 1 zero-element tensor, 2 exact
    int how[4]; for (int i = 0; i < 4; ++i) how[i] = r.chance(1, 2) ? 2 : r.in(0, 2); if (r.chance(1, 3)) for (int &h : how) h = 2;
    std::vector<int64_t> ysh = sh; if (axis < 0) ysh = {U}; else ysh[axis] = U;
    int64_t yn = 1; for (auto d : ysh) yn *= d; int64_t zero = 0;
    auto mk = [&](int h, int64_t cntElems, int esz, std::vector<int64_t> shp, int type, char *&buf) -> OMTensor * { buf = nullptr; if (!h) return nullptr; if (h == 1) { buf = (char *)malloc(1); return omTensorCreate(buf, &zero, 1, (OM_DATA_TYPE)type); }
      buf = (char *)malloc(cntElems * esz); memset(buf, 0xEE, cntElems * esz); return omTensorCreate(buf, shp.data(), shp.size(), (OM_DATA_TYPE)type); };
    char *b[4]; OMTensor *Y = mk(how[0], yn, sz, ysh, t, b[0]), *I = mk(how[1], U, 8, {U}, typed::I64, b[1]), *V = mk(how[2], slices, 8, {slices}, typed::I64, b[2]), *C = mk(how[3], U, 8, {U}, typed::I64, b[3]);
    std::string d2 = desc + fmt(" outputs %d%d%d%d", how[0], how[1], how[2], how[3]);
    *tot = -5; omTensorUnique(tt, Y, I, V, C, in, axis, sorted);
    M->ev(); if (*tot != U) M->violate("total", d2);
    auto chk = [&](const char *k, int h, char *buf, const std::vector<int64_t> &want) { if (h != 2) return; M->count(k); if (memcmp(buf, want.data(), want.size() * 8)) { std::vector<int64_t> g((int64_t *)buf, (int64_t *)buf + std::min<size_t>(want.size(), 10)), w(want.begin(), want.begin() + g.size()); M->violate(k, d2 + " got " + str(g) + " want " + str(w)); } };
    chk("indices", how[1], b[1], first); chk("inverse", how[2], b[2], inv); chk("counts", how[3], b[3], cnt);
    if (how[0] == 2) { M->count("Y"); bool bad = false; int64_t at = 0;
      for (int64_t i = 0; i < yn && !bad; ++i) { int64_t s, e; if (axis < 0) { s = i; e = 0; } else { std::vector<int64_t> ix(rank); int64_t rem = i; for (int k = rank - 1; k >= 0; --k) { ix[k] = rem % ysh[k]; rem /= ysh[k]; } s = ix[axis]; e = 0; for (int k = 0; k < rank; ++k) if (k != axis) e = e * sh[k] + ix[k]; }
        if (typed::key(t, b[0] + i * sz) != typed::key(t, data + offOf(first[s], e) * sz)) { bad = true; at = i; } }
      if (bad) M->violate("Y", d2 + fmt(" element %ld", (long)at)); }
    if (U > 1 && U < slices) { uint64_t h = mixh(mixh(t, axis), sorted); for (auto x : inv) h = mixh(h, x); M->distinct(h); }
    for (auto *x : {Y, I, V, C}) if (x) omTensorDestroy(x); for (auto *x : b) free(x);
  }
  if (total && memcmp(copy.data(), data, total * sz)) M->violate("input-modified", desc);
  omTensorDestroy(in); omTensorDestroy(tt); free(data); free(tot);
}
int main(int argc, char **argv) { Mon m; M = &m; long n = atol(argv[1]);
  m.run("unique", n, [](Rng &r, long i) { oneCase(r, i, false); });
  m.run("large", n / 4000, [](Rng &r, long i) { oneCase(r, i, true); }, 120);
  return m.finish(); }
