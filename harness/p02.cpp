// P02: ownership histories of tensors and tensor lists against an allocation ledger.
#include "mon.hpp"
#include "ledger.hpp"
#include "OnnxMlirRuntime.h"
#ifdef C_RT
extern "C" {
#else
#include "src/Runtime/OMTensorHelper.hpp"
#endif
OMTensor *omTensorCreateUntyped(int64_t rank);
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
#ifdef C_RT
}
#endif
static Mon *M;
struct T { OMTensor *t; bool own; void *buf; bool inList; std::vector<int64_t> sh; int dt; bool internal; };
struct L { OMTensorList *l; std::vector<OMTensor *> ts; };
static int liveData;  // not used
struct World {
  std::vector<T> ts; std::vector<L> ls; std::map<void *, int> expect; // buffer -> frees expected so far
  std::string trace; uint64_t h = 1; std::vector<std::pair<void *, size_t>> bufs;
  void *newBuf(size_t n) { void *p = __real_malloc(n ? n : 1); memset(p, 0x33, n); bufs.push_back({p, n}); Ledger::watchBuf(p); expect[p] = 0; return p; }
  void check(const char *op) {
    M->ev();
    for (auto &e : expect) { int f = Ledger::frees(e.first);
      if (f != e.second) { M->violate(f > e.second ? (e.second ? "double-free" : "freed-while-live-or-borrowed") : "owned-buffer-not-freed", std::string(op) + fmt(": buffer freed %d times, expected %d; history ", f, e.second) + trace); e.second = f; } }
  }
};
static OMTensor *mk(World &w, Rng &r, T &t) {
  int rank = r.in(0, 5); t.sh.clear(); int64_t n = 1; for (int i = 0; i < rank; ++i) { t.sh.push_back(r.chance(1, 10) ? 0 : r.in(1, 4)); n *= t.sh.back(); }
  static const int types[] = {1, 2, 5, 7, 9, 11, 14, 15}; t.dt = types[r.in(0, 7)]; t.inList = false; t.internal = false;
  int how = r.in(0, 4); w.h = mixh(w.h, how);
  switch (how) {
  case 0: t.own = false; t.buf = w.newBuf(n * 16); w.trace += "create;"; t.t = SUT(omTensorCreate(t.buf, t.sh.data(), rank, (OM_DATA_TYPE)t.dt)); break;
  case 1: t.own = true; t.buf = w.newBuf(n * 16); w.trace += "createOwn;"; t.t = SUT(omTensorCreateWithOwnership(t.buf, t.sh.data(), rank, (OM_DATA_TYPE)t.dt, 1)); break;
  case 2: t.own = false; t.buf = w.newBuf(n * 16); w.trace += "createNoOwn;"; t.t = SUT(omTensorCreateWithOwnership(t.buf, t.sh.data(), rank, (OM_DATA_TYPE)t.dt, 0)); break;
  case 3: t.own = true; t.internal = true; t.buf = nullptr; w.trace += "createEmpty;"; t.t = SUT(omTensorCreateEmpty(t.sh.data(), rank, (OM_DATA_TYPE)t.dt)); break;
  case 4: t.own = false; t.buf = nullptr; w.trace += "createUntyped;"; t.t = SUT(omTensorCreateUntyped(rank)); break;
  }
  if (t.internal && t.t) { memset(omTensorGetDataPtr(t.t), 1, omTensorGetBufferSize(t.t)); }
  return t.t;
}
static void history(Rng &r, long) {
  World w; Ledger::reset(); 
  int steps = r.in(5, 60);
  for (int s = 0; s < steps; ++s) {
    int k = r.in(0, 9);
    std::vector<int> freeT; for (size_t i = 0; i < w.ts.size(); ++i) if (!w.ts[i].inList) freeT.push_back(i);
    w.h = mixh(w.h, k);
    if (k <= 2 || freeT.empty()) { T t; if (mk(w, r, t)) w.ts.push_back(t); else M->violate("create-null", w.trace); w.check("create"); M->count("created"); continue; }
    int i = r.pick(freeT); T &t = w.ts[i];
    switch (k) {
    case 3: { w.trace += "destroy;"; SUT(omTensorDestroy(t.t)); if (t.own && t.buf) w.expect[t.buf]++; w.ts.erase(w.ts.begin() + i); w.check("omTensorDestroy"); M->count("destroyed"); break; }
    case 4: { // give up ownership, buffer stays ours
      if (t.internal) { void *p = omTensorGetAllocatedPtr(t.t); w.trace += "disown+free;"; SUT(omTensorSetOwning(t.t, 0)); t.own = false; t.internal = false; t.buf = nullptr; { Sut q; free(p); } }
      else { w.trace += "disown;"; SUT(omTensorSetOwning(t.t, 0)); t.own = false; }
      w.check("omTensorSetOwning(0)"); M->count("disowned"); break; }
    case 5: { if (t.own || !t.buf || w.expect[t.buf]) break; bool shared = false; for (auto &o : w.ts) if (&o != &t && o.buf == t.buf && o.own) shared = true; if (shared) break;
      w.trace += "own;"; SUT(omTensorSetOwning(t.t, 1)); t.own = true; w.check("omTensorSetOwning(1)"); M->count("owned"); break; }
    case 6: { // re-point: old owned buffer freed now
      void *nb = w.newBuf(64); bool own = r.chance(1, 2); void *al = r.chance(1, 2) ? (char *)nb + 16 : nullptr; w.trace += own ? "setDataOwn;" : "setData;";
      SUT((omTensorSetDataPtr(t.t, own, nb, al), 0)); if (t.own && t.buf) w.expect[t.buf]++; t.own = own; t.internal = false; t.buf = nb;
      if (omTensorGetAllocatedPtr(t.t) != nb || omTensorGetDataPtr(t.t) != (al ? al : nb)) M->violate("setDataPtr", w.trace);
      w.check("omTensorSetDataPtr"); M->count("repointed"); break; }
    case 7: { // list over some free tensors
      int n = r.in(0, (int)std::min<size_t>(freeT.size(), 6)); r.shuffle(freeT); L l; OMTensor **arr = (OMTensor **)w.newBuf(sizeof(OMTensor *) * (n + 1));
      for (int q = 0; q < n; ++q) { if (r.chance(1, 10)) { l.ts.push_back(nullptr); arr[q] = nullptr; } else { w.ts[freeT[q]].inList = true; l.ts.push_back(w.ts[freeT[q]].t); arr[q] = l.ts.back(); } }
      w.trace += fmt("list%d;", n); l.l = SUT(omTensorListCreate(arr, n)); if (!l.l) { M->violate("list-null", w.trace); return; }
      memset(arr, 0xee, sizeof(OMTensor *) * (n + 1)); // the caller's array is copied
      w.ls.push_back(l); w.check("omTensorListCreate"); M->count("lists"); break; }
    case 8: { if (w.ls.empty()) break; int li = r.in(0, w.ls.size() - 1); L l = w.ls[li]; bool shallow = r.chance(1, 2);
      w.trace += shallow ? "listDestroyShallow;" : "listDestroy;";
      if (shallow) SUT(omTensorListDestroyShallow(l.l)); else SUT(omTensorListDestroy(l.l));
      for (auto *p : l.ts) if (p) for (size_t q = 0; q < w.ts.size(); ++q) if (w.ts[q].t == p) {
        if (shallow) w.ts[q].inList = false; else { if (w.ts[q].own && w.ts[q].buf) w.expect[w.ts[q].buf]++; w.ts.erase(w.ts.begin() + q); } break; }
      w.ls.erase(w.ls.begin() + li); w.check("omTensorListDestroy"); M->count(shallow ? "lists_destroyed_shallow" : "lists_destroyed"); break; }
    case 9: { std::vector<int64_t> v(t.sh.size(), 2); w.trace += "setters;"; SUT(omTensorSetShape(t.t, v.data())); SUT(omTensorSetStrides(t.t, v.data())); SUT(omTensorSetDataType(t.t, ONNX_TYPE_DOUBLE)); w.check("setters"); break; }
    }
    for (auto &l : w.ls) {
      if (omTensorListGetSize(l.l) != (int64_t)l.ts.size()) M->violate("list-size", w.trace);
      for (size_t q = 0; q < l.ts.size(); ++q) if (omTensorListGetOmtByIndex(l.l, q) != l.ts[q] || omTensorListGetOmtArray(l.l)[q] != l.ts[q]) M->violate("list-element", fmt("%zu of %zu ", q, l.ts.size()) + w.trace);
      if (omTensorListGetOmtByIndex(l.l, -1) || omTensorListGetOmtByIndex(l.l, l.ts.size()) || omTensorListGetOmtByIndex(l.l, INT64_MAX) || omTensorListGetOmtByIndex(l.l, INT64_MIN)) M->violate("list-out-of-range", w.trace);
    }
  }
  for (auto &l : w.ls) { SUT(omTensorListDestroy(l.l)); for (auto *p : l.ts) if (p) for (size_t q = 0; q < w.ts.size(); ++q) if (w.ts[q].t == p) { if (w.ts[q].own && w.ts[q].buf) w.expect[w.ts[q].buf]++; w.ts.erase(w.ts.begin() + q); break; } }
  w.check("final list destroy");
  for (auto &t : w.ts) { SUT(omTensorDestroy(t.t)); if (t.own && t.buf) w.expect[t.buf]++; }
  w.check("final destroy");
  if (Ledger::nLive) M->violate("leak", fmt("%d blocks, first of %zu bytes; history ", Ledger::nLive, Ledger::liveSz[0]) + w.trace);
  M->count("allocations", Ledger::nAlloc); M->count("frees", Ledger::nFree);
  for (auto &b : w.bufs) __real_free(b.first);
  M->distinct(w.h); M->sample(w.trace);
}
// Every allocation of every constructor fails once: NULL result, nothing leaked, caller's buffer untouched.
static void faults(Rng &r, long) {
  for (int which = 0; which < 7; ++which)
    for (int fail = 0; fail < 8; ++fail) {
      Ledger::reset(); Ledger::failAt = fail; int64_t sh[4] = {r.in(1, 3), r.in(1, 3), r.in(1, 3), 2}; int rank = r.in(1, 4);
      void *buf = __real_malloc(1024); Ledger::watchBuf(buf); OMTensor *t = nullptr; OMTensorList *l = nullptr; OMTensor *arr[3] = {nullptr, nullptr, nullptr};
      const char *names[] = {"create", "createOwn", "createEmpty", "createUntyped", "list", "list0", "withShape"};
      switch (which) {
      case 0: t = SUT(omTensorCreate(buf, sh, rank, ONNX_TYPE_FLOAT)); break;
      case 1: t = SUT(omTensorCreateWithOwnership(buf, sh, rank, ONNX_TYPE_FLOAT, 1)); break;
      case 2: t = SUT(omTensorCreateEmpty(sh, rank, ONNX_TYPE_FLOAT)); break;
      case 3: t = SUT(omTensorCreateUntyped(rank)); break;
      case 4: l = SUT(omTensorListCreate(arr, 3)); break;
      case 5: l = SUT(omTensorListCreate(arr, 0)); break;
      case 6:
#ifndef C_RT
      { std::vector<int64_t> v(sh, sh + rank); t = SUT(omTensorCreateWithShape<double>(v)); }
#else
      t = SUT(omTensorCreate(buf, sh, rank, ONNX_TYPE_DOUBLE));
#endif
      }
      M->ev(); bool failed = Ledger::failed; Ledger::failAt = -1;
      if (failed) { M->count("failed_allocations"); M->distinct(mixh(which, fail) + rank);
        if (t || l) M->violate(std::string("fault:not-reported:") + names[which], fmt("allocation %d failed", fail));
        else { if (Ledger::nLive) M->violate(std::string("fault:leak:") + names[which], fmt("allocation %d failed, %d blocks left", fail, Ledger::nLive));
          if (Ledger::frees(buf)) M->violate(std::string("fault:caller-buffer-freed:") + names[which], fmt("allocation %d failed", fail)); }
      } else {
        if (!t && !l) M->violate(std::string("create-null:") + names[which], "");
        if (t) SUT(omTensorDestroy(t)); if (l) SUT(omTensorListDestroy(l));
        if (Ledger::nLive) M->violate(std::string("leak:") + names[which], "");
        int f = Ledger::frees(buf), want = which == 1; if (f != want) M->violate(std::string("buffer-frees:") + names[which], fmt("%d want %d", f, want));
      }
      __real_free(buf);
    }
  SUT((omTensorListDestroy(nullptr), omTensorListDestroyShallow(nullptr), 0));
  if (omTensorListGetSize(nullptr) || omTensorListGetOmtArray(nullptr) || omTensorListGetOmtByIndex(nullptr, 0)) M->violate("null-list", "");
}
int main(int argc, char **argv) {
  Mon m; M = &m; long n = argc > 1 ? atol(argv[1]) : 1000;
  m.run("history", n, history); m.run("faults", n / 20 + 20, faults);
  return m.finish();
}
