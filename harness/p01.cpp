// P01: OMTensor descriptors against an independent model. Built twice: with the C
// runtime (-DC_RT) and with the C++ flavour of the same sources.
#include "mon.hpp"
#include "OnnxMlirRuntime.h"
#ifndef C_RT
#include "src/Runtime/OMTensorHelper.hpp"
#endif
extern "C++" {}
#ifdef C_RT
extern "C" {
#endif
OMTensor *omTensorCreateUntyped(int64_t rank);
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
#ifdef C_RT
}
#endif
static const int SIZES[] = {0,4,1,1,2,2,4,8,8,1,2,8,4,8,8,16,2,1,1,1,1,1,1};
static Mon *M;
struct Model { std::vector<int64_t> sh, st; int dt; int64_t owning; void *data, *alloc; bool shValid, stValid; };

static std::vector<int64_t> randShape(Rng &r, int maxRank, int64_t maxElems) {
  int rank = r.in(0, maxRank); std::vector<int64_t> s; int64_t n = 1;
  for (int i = 0; i < rank; ++i) {
    int64_t d = r.chance(1, 12) ? 0 : r.chance(1, 4) ? 1 : r.in(1, 7);
    if (n * std::max<int64_t>(d, 1) > maxElems) d = 1;
    n *= std::max<int64_t>(d, 1); s.push_back(d);
  }
  return s;
}
static std::vector<int64_t> rowMajor(const std::vector<int64_t> &s) {
  std::vector<int64_t> t(s.size()); int64_t p = 1;
  for (int i = (int)s.size() - 1; i >= 0; --i) { t[i] = p; p *= s[i]; }
  return t;
}
static int64_t prod(const std::vector<int64_t> &s) { int64_t p = 1; for (auto d : s) p *= d; return p; }
static std::string show(const Model &m) { return "shape " + str(m.sh) + " strides " + str(m.st) + fmt(" type %d owning %ld", m.dt, (long)m.owning); }

static void compare(const OMTensor *t, const Model &m, const char *after) {
  M->ev();
  int64_t rank = m.sh.size();
  auto bad = [&](const char *what, std::string got) { M->violate(std::string("desc:") + what, std::string("after ") + after + " expected " + show(m) + ", got " + got); };
  if (omTensorGetRank(t) != rank) bad("rank", fmt("%ld", (long)omTensorGetRank(t)));
  if (omTensorGetDataPtr(t) != m.data) bad("dataPtr", fmt("%p want %p", omTensorGetDataPtr(t), m.data));
  if (omTensorGetAllocatedPtr(t) != m.alloc) bad("allocatedPtr", fmt("%p want %p", omTensorGetAllocatedPtr(t), m.alloc));
  if ((int)omTensorGetDataType(t) != m.dt) bad("dataType", fmt("%d", (int)omTensorGetDataType(t)));
  if ((omTensorGetOwning(t) != 0) != (m.owning != 0)) bad("owning", fmt("%ld", (long)omTensorGetOwning(t)));
  if (m.shValid && rank) {
    std::vector<int64_t> g(omTensorGetShape(t), omTensorGetShape(t) + rank);
    if (g != m.sh) bad("shape", str(g));
  }
  if (m.stValid && rank) {
    std::vector<int64_t> g(omTensorGetStrides(t), omTensorGetStrides(t) + rank);
    if (g != m.st) bad("strides", str(g));
  }
  if (m.shValid) {
    int64_t want = prod(m.sh) * (m.dt >= 0 && m.dt <= 22 ? SIZES[m.dt] : 0);
    if (omTensorGetBufferSize(t) != want) bad("bufferSize", fmt("%ld want %ld", (long)omTensorGetBufferSize(t), (long)want));
    if (m.stValid && m.st == rowMajor(m.sh) && omTensorGetNumElems(t) != prod(m.sh)) bad("numElems", fmt("%ld", (long)omTensorGetNumElems(t)));
  }
}

static void descCase(Rng &r, long) {
  Model m; m.sh = randShape(r, 8, 4096); m.st = rowMajor(m.sh); m.dt = r.in(1, 22); m.owning = 0; m.shValid = m.stValid = true;
  if (r.chance(1, 6)) { for (auto &d : m.sh) if (r.chance(1, 3)) d = r.in(1, 3000); // big but never dereferenced
    auto dp = [&] { double p = 1; for (auto d : m.sh) p *= std::max<int64_t>(d, 1); return p; };
    while (!m.sh.empty() && dp() > 1e15) m.sh.pop_back();
    m.st = rowMajor(m.sh); }
  int64_t rank = m.sh.size();
  std::vector<char> buf(64); void *borrowed = r.chance(1, 10) ? nullptr : (void *)(buf.data() + r.in(0, 16));
  std::vector<int64_t> arg = m.sh;  // caller's array, clobbered afterwards
  OMTensor *t; int how = r.in(0, 3); const char *op = "";
  if (how == 0) { op = "omTensorCreate"; t = omTensorCreate(borrowed, arg.data(), rank, (OM_DATA_TYPE)m.dt); m.data = m.alloc = borrowed; }
  else if (how == 1) {
    op = "omTensorCreateWithOwnership"; m.owning = r.in(0, 1);
    void *p = m.owning ? malloc(8) : borrowed;
    t = omTensorCreateWithOwnership(p, arg.data(), rank, (OM_DATA_TYPE)m.dt, m.owning); m.data = m.alloc = p;
  } else if (how == 2) {
    op = "omTensorCreateEmpty"; m.sh = randShape(r, 6, 512); m.st = rowMajor(m.sh); rank = m.sh.size(); arg = m.sh;
    if (r.chance(1, 10)) m.dt = r.chance(1, 2) ? 0 : (int)r.in(23, 31);
    t = omTensorCreateEmpty(arg.data(), rank, (OM_DATA_TYPE)m.dt); m.owning = 1;
    bool ok = m.dt >= 1 && m.dt <= 22;
    if (ok != (t != nullptr)) { M->violate("desc:createEmpty", fmt("type %d gives %p", m.dt, (void *)t)); if (t) omTensorDestroy(t); return; }
    if (!t) { M->ev(); M->count("rejected_types"); return; }
    m.data = m.alloc = omTensorGetDataPtr(t);
    // the whole announced buffer must be usable
    if (m.data) memset(m.data, 0x5a, prod(m.sh) * SIZES[m.dt]);
    else if (prod(m.sh) > 0) M->violate("desc:createEmpty", "no buffer");
  } else { op = "omTensorCreateUntyped"; t = omTensorCreateUntyped(rank); m.dt = 0; m.data = m.alloc = nullptr; m.shValid = m.stValid = rank == 0; }
  if (!t) { M->violate("desc:null", std::string(op) + " returned NULL for " + show(m)); return; }
  for (auto &x : arg) x = -12345;
  compare(t, m, op);
  M->count(op);
  uint64_t h = mixh(hashStr(op), m.dt); for (auto d : m.sh) h = mixh(h, d);
  int steps = r.in(0, 12);
  for (int i = 0; i < steps; ++i) {
    int k = r.in(0, 6); h = mixh(h, k);
    std::vector<int64_t> v(rank);
    switch (k) {
    case 0: { op = "omTensorSetShape";
      for (auto &x : v) x = r.in(0, 5);
      omTensorSetShape(t, v.data()); m.sh = v; m.shValid = true; break; }
    case 1: { op = "omTensorSetStrides";
      if (m.shValid && r.chance(1, 2)) v = rowMajor(m.sh); else for (auto &x : v) x = r.in(-3, 1000000007);
      omTensorSetStrides(t, v.data()); m.st = v; m.stValid = true; break; }
    case 2: { op = "omTensorSetDataType"; m.dt = r.in(0, 25); omTensorSetDataType(t, (OM_DATA_TYPE)m.dt); break; }
    case 3: { int sz = m.dt >= 1 && m.dt <= 22 ? SIZES[m.dt] : 0; if (!sz) continue; op = "omTensorSetStridesWithPyArrayStrides";
      std::vector<int64_t> b(rank); for (int q = 0; q < rank; ++q) { v[q] = r.chance(1, 3) ? r.in(-20, 20) : r.in(-(1ll << 40), 1ll << 40); b[q] = v[q] * sz; }
      omTensorSetStridesWithPyArrayStrides(t, b.data()); m.st = v; m.stValid = true; break; }
    case 4: { op = "omTensorSetOwning(0)"; if (m.owning) { free(m.alloc); m.data = m.alloc = (void *)0; omTensorSetOwning(t, 0); omTensorSetDataPtr(t, 0, nullptr, nullptr); }
      else omTensorSetOwning(t, 0); m.owning = 0; break; }
    case 5: { op = "omTensorSetDataPtr"; int64_t own = r.in(0, 1); void *a = own ? malloc(32) : (void *)buf.data();
      void *al = r.chance(1, 2) ? (char *)a + 8 : nullptr;
      omTensorSetDataPtr(t, own, a, al); m.owning = own; m.alloc = a; m.data = al ? al : a; break; }
    case 6: { op = "set NULL"; omTensorSetShape(t, nullptr); omTensorSetStrides(t, nullptr); omTensorSetStridesWithPyArrayStrides(t, nullptr); break; }
    }
    compare(t, m, op); M->count(op);
  }
  if (rank > 0 && (steps > 0 || prod(m.sh) > 1)) M->distinct(h);
  M->sample("history ending in " + std::string(op) + ": " + show(m));
  omTensorDestroy(t);
}
static void nullCase(Rng &r, long) {
  M->ev();
  int64_t v[1] = {3};
  omTensorDestroy(nullptr); omTensorSetShape(nullptr, v); omTensorSetStrides(nullptr, v); omTensorSetDataType(nullptr, ONNX_TYPE_FLOAT);
  omTensorSetOwning(nullptr, 1); omTensorSetStridesWithPyArrayStrides(nullptr, v);
  if (omTensorGetDataPtr(nullptr) || omTensorGetShape(nullptr) || omTensorGetStrides(nullptr) || omTensorGetRank(nullptr) || omTensorGetNumElems(nullptr) ||
      omTensorGetBufferSize(nullptr) || omTensorGetOwning(nullptr) || omTensorGetAllocatedPtr(nullptr) || omTensorGetDataType(nullptr) != ONNX_TYPE_UNDEFINED)
    M->violate("desc:null-tensor", "getter on NULL returns something");
  for (int i = 0; i <= 22; ++i) {
    if (OM_DATA_TYPE_SIZE[i] != SIZES[i] || getDataTypeSize((OM_DATA_TYPE)i) != SIZES[i]) M->violate(fmt("desc:type-size-%d", i), fmt("%d", OM_DATA_TYPE_SIZE[i]));
    M->ev();
  }
  for (int i = 23; i < 32; ++i) if (getDataTypeSize((OM_DATA_TYPE)i) != 0) M->violate("desc:type-size-outside", fmt("%d", i));
}
#ifndef C_RT
template <class T> struct Ty; 
#define TY(T, V) template <> struct Ty<T> { static constexpr int v = V; static const char *n() { return #T; } };
TY(bool, 9) TY(int8_t, 3) TY(uint8_t, 2) TY(int16_t, 5) TY(uint16_t, 4) TY(int32_t, 6) TY(uint32_t, 12) TY(int64_t, 7) TY(uint64_t, 13) TY(float, 1) TY(double, 11)
template <class T> void createShape(Rng &r) {
  auto sh = randShape(r, 6, 2000); int64_t n = prod(sh);
  OMTensor *t = omTensorCreateWithShape<T>(sh);
  if (!t) { M->violate(std::string("withShape:null:") + Ty<T>::n(), str(sh)); return; }
  Model m; m.sh = sh; m.st = rowMajor(sh); m.dt = Ty<T>::v; m.owning = 1; m.shValid = m.stValid = true;
  m.data = m.alloc = omTensorGetDataPtr(t); compare(t, m, "omTensorCreateWithShape"); M->count("omTensorCreateWithShape");
  if (m.data) memset(m.data, 1, n * sizeof(T));
  auto cs = omTensorComputeStridesFromShape(t);
  if (cs != m.st) M->violate("stridesFromShape", str(sh) + " gives " + str(cs));
  M->ev();
  omTensorDestroy(t);
}
template <class T> void elems(Rng &r) {
  // a strided view over a larger buffer; each logical element addressed once
  auto sh = randShape(r, 5, 300); int rank = sh.size();
  std::vector<int> perm(rank); for (int i = 0; i < rank; ++i) perm[i] = i; r.shuffle(perm);
  std::vector<int64_t> st(rank); int64_t p = 1;
  for (int i : perm) { st[i] = p; p *= std::max<int64_t>(sh[i], 1) + r.in(0, 1); }
  std::vector<T> buf; std::unique_ptr<T[]> mem(new T[p + 1]()); 
  OMTensor *t = omTensorCreate(mem.get(), sh.data(), rank, (OM_DATA_TYPE)Ty<T>::v);
  omTensorSetStrides(t, st.data());
  auto set = omTensorComputeIndexSet(t);
  int64_t n = prod(sh);
  if ((int64_t)set.size() != n) { M->violate("indexSet:size", fmt("%zu for ", set.size()) + str(sh)); omTensorDestroy(t); return; }
  std::vector<int64_t> idx(rank, 0);
  for (int64_t k = 0; k < n; ++k) {
    int64_t rem = k; for (int i = rank - 1; i >= 0; --i) { idx[i] = rem % sh[i]; rem /= sh[i]; }
    M->ev();
    if (set[k] != idx) { M->violate("indexSet:order", fmt("entry %ld is ", (long)k) + str(set[k]) + " want " + str(idx)); break; }
    int64_t off = 0; for (int i = 0; i < rank; ++i) off += idx[i] * st[i];
    if (omTensorComputeElemOffset(t, idx) != off) { M->violate("elemOffset", str(idx) + " strides " + str(st) + fmt(" gives %ld", (long)omTensorComputeElemOffset(t, idx))); break; }
    if (&omTensorGetElem<T>(t, idx) != mem.get() + off) { M->violate("getElem", str(idx) + " strides " + str(st)); break; }
    omTensorGetElem<T>(t, idx) = (T)(k + 1);
    if constexpr (!std::is_same_v<T, bool>) if (&omTensorGetElemByOffset<T>(t, off) != mem.get() + off) { M->violate("getElemByOffset", str(idx)); break; }
  }
  uint64_t h = 77; for (auto d : sh) h = mixh(h, d); for (auto d : st) h = mixh(h, d); if (n > 1) M->distinct(h);
  M->count("elements_addressed", n);
  omTensorDestroy(t);
}
static void bigOffset(Rng &r, long) {
  M->ev(); int rank = r.in(1, 5); std::vector<int64_t> sh(rank), st(rank), idx(rank); int64_t want = 0;
  for (int i = 0; i < rank; ++i) { sh[i] = r.in(1, 1ll << r.in(1, 33)); idx[i] = r.in(0, sh[i] - 1); st[i] = r.in(0, 1ll << r.in(1, 28)); want += idx[i] * st[i]; }
  std::vector<int64_t> ones(rank, 1); char c; OMTensor *t = omTensorCreate(&c, ones.data(), rank, ONNX_TYPE_INT8); omTensorSetShape(t, sh.data()); omTensorSetStrides(t, st.data());
  if (omTensorComputeElemOffset(t, idx) != want) M->violate("elemOffset:large", str(idx) + " strides " + str(st) + fmt(" gives %ld want %ld", (long)omTensorComputeElemOffset(t, idx), (long)want));
  uint64_t h = 5; for (auto d : idx) h = mixh(h, d); M->distinct(h); M->count("large_offsets");
  omTensorDestroy(t);
}
template <class T> void close(Rng &r) {
  auto sh = randShape(r, 4, 200); int64_t n = prod(sh);
  std::vector<T> a(n), b(n);
  float rtol = r.chance(1, 4) ? 0 : (float)std::pow(10.0, r.in(-6, 0)), atol = r.chance(1, 4) ? 0 : (float)std::pow(10.0, r.in(-6, 1));
  if (std::is_integral_v<T> && r.chance(1, 4)) { atol = r.in(0, 5); rtol = r.in(0, 2); }
  for (int64_t i = 0; i < n; ++i) { b[i] = std::is_integral_v<T> ? (T)r.in(-100000, 100000) : (T)((r.unit() - 0.5) * std::pow(10.0, r.in(-3, 4))); a[i] = b[i]; }
  // perturb: either all inside the tolerance or one element outside
  bool want = true; int mode = r.in(0, 5);
  auto allowed = [&](T bb) { return (long double)rtol * fabsl((long double)bb) + (long double)atol; };
  if (n && mode >= 1) {
    for (int64_t i = 0; i < n; ++i) {
      long double d = allowed(b[i]) * (long double)r.unit() * 0.9L * (r.chance(1, 2) ? 1 : -1);
      if (std::is_integral_v<T>) d = truncl(d);
      a[i] = (T)((long double)b[i] + d);
    }
    if (mode >= 3) {
      int64_t i = r.chance(1, 3) ? n - 1 : r.chance(1, 3) ? 0 : r.in(0, n - 1); long double d = (allowed(b[i]) * 1.2L + (std::is_integral_v<T> ? 1 : 1e-2L * fabsl((long double)b[i]) + 1e-4L)) * (r.chance(1, 2) ? 1 : -1);
      if (std::is_integral_v<T>) d = d > 0 ? ceill(d) : floorl(d);
      a[i] = (T)((long double)b[i] + d); 
    }
    if (mode == 5 && !std::is_integral_v<T>) { int64_t i = r.in(0, n - 1); (r.chance(1, 2) ? a : b)[i] = (T)NAN; }
    for (int64_t i = 0; i < n; ++i) {
      long double d = fabsl((long double)a[i] - (long double)b[i]), al = allowed(b[i]);
      if (!(d <= al)) want = false;
      if (d == d && fabsl(d - al) < 1e-3L * (al + d) && d > 0 && !std::is_integral_v<T>) return; // too near the edge to call
      if (std::is_integral_v<T> && d != 0 && fabsl(d - al) < 1e-4L * al + 1e-9L) return;
    }
  }
  auto sh2 = sh; bool sameShape = true;
  if (r.chance(1, 8)) { sh2.push_back(1); sameShape = false; }
  OMTensor *ta = omTensorCreate(a.data(), sh.data(), sh.size(), (OM_DATA_TYPE)Ty<T>::v), *tb = omTensorCreate(b.data(), sh2.data(), sh2.size(), (OM_DATA_TYPE)Ty<T>::v);
  bool got = omTensorAreTwoOmtsClose<T>(ta, tb, rtol, atol); want = want && sameShape;
  M->ev(); M->count(want ? "close_pairs" : "far_pairs");
  if (got != want) M->violate(std::string("close:") + (std::is_integral_v<T> ? "int" : "float"), fmt("%s got %d want %d rtol %g atol %g n %ld mode %d", Ty<T>::n(), got, want, rtol, atol, (long)n, mode));
  if (n > 1) M->distinct(hashBytes(a.data(), n * sizeof(T)));
  omTensorDestroy(ta); omTensorDestroy(tb);
}
static void helperCase(Rng &r, long i) {
  switch (i % 11) {
  case 0: createShape<bool>(r); break; case 1: createShape<int8_t>(r); break; case 2: createShape<uint8_t>(r); break; case 3: createShape<int16_t>(r); break;
  case 4: createShape<uint16_t>(r); break; case 5: createShape<int32_t>(r); break; case 6: createShape<uint32_t>(r); break; case 7: createShape<int64_t>(r); break;
  case 8: createShape<uint64_t>(r); break; case 9: createShape<float>(r); break; case 10: createShape<double>(r); break; }
}
#endif
int main(int argc, char **argv) {
  Mon m; M = &m; long n = argc > 1 ? atol(argv[1]) : 1000;
  m.run("null", 1, nullCase);
  m.run("desc", n, descCase);
#ifndef C_RT
  m.run("withShape", n, helperCase);
  m.run("elems", n, [](Rng &r, long i) { switch (i % 5) { case 0: elems<bool>(r); break; case 1: elems<int32_t>(r); break; case 2: elems<int64_t>(r); break; case 3: elems<float>(r); break; case 4: elems<double>(r); } });
  m.run("bigOffset", n / 4, bigOffset);
  m.run("close", n, [](Rng &r, long i) { switch (i % 4) { case 0: close<int32_t>(r); break; case 1: close<int64_t>(r); break; case 2: close<float>(r); break; case 3: close<double>(r); } });
#endif
  return m.finish();
}
