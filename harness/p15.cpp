// P15: threads running runtime operations concurrently under ThreadSanitizer; every result is compared with the one computed alone.
#include "mon.hpp"
#include "typed.hpp"
#include "OnnxMlirRuntime.h"
#include "src/Runtime/ExecutionSession.hpp"
#include <atomic>
#include <errno.h>
#include <filesystem>
#include <fstream>
#include <sched.h>
#include <thread>
extern "C" {
#include "src/Runtime/OMSort.h"
void omTensorUnique(OMTensor *, OMTensor *, OMTensor *, OMTensor *, OMTensor *, const OMTensor *, int64_t, uint64_t);
void omTensorUniqueCount(OMTensor *, const OMTensor *, int64_t, uint64_t);
void Resize_Scales(OMTensor *, OMTensor *, OMTensor *, char *, char *); void Resize_Size(OMTensor *, OMTensor *, OMTensor *, char *, char *);
uint64_t find_index_str(const char *, const int32_t G[], const int32_t V[], int32_t); uint64_t find_index_i64(int64_t, const int32_t G[], const int32_t V[], int32_t);
void get_random_normal_value_f64(double *, long long, double, double, double); void get_random_normal_value_f32(float *, long long, float, float, float); OMTensor *run_uniform_random(OMTensor *, float, float, float);
bool omLoadConstantData(void **, char *, int64_t, int64_t); void omGetExternalConstantAddr(void **, void **, int64_t); bool omUnloadConstantData(void **, int64_t);
float om_f16_to_f32(uint16_t); uint16_t om_f32_to_f16(float);
}
using std::string; using namespace onnx_mlir;
static Mon *M; static thread_local int delayMode; static thread_local uint64_t delaySeed; static thread_local uint64_t ctorHash; static thread_local string wantDir;
static OMTensor *sharedTensor; static ExecutionSession *sharedSession; static string constDir; static std::vector<string> libs; static std::atomic<int> ticket;
static std::vector<std::pair<int, int>> *trace;
static void jitter() { delaySeed = delaySeed * 6364136223846793005ull + 1442695040888963407ull; switch (delayMode) { case 1: if ((delaySeed >> 40) % 4 == 0) sched_yield(); break; case 2: if ((delaySeed >> 40) % 8 == 0) usleep((delaySeed >> 50) % 50); break; } }
extern "C" {
__attribute__((visibility("default"))) void mock_event(const char *id, const char *what) {
  if (strcmp(what, "ctor")) return; void *c = nullptr; char f[] = "model.constants.bin"; jitter();
  if (!omLoadConstantData(&c, f, 64, 1)) { ctorHash = 1; return; } ctorHash = hashBytes(c, 64); omUnloadConstantData(&c, 64); }
__attribute__((visibility("default"))) OMTensorList *mock_run(const char *, const char *e, OMTensorList *l) {
  OMTensor *t = omTensorListGetOmtByIndex(l, 0); if (!t) { errno = ENOENT; return nullptr; } jitter(); float *p = (float *)omTensorGetDataPtr(t); int64_t n = omTensorGetNumElems(t);
  if (n > 2 && p[0] < -0.45f) { errno = 3 + (int)(n % 30); return nullptr; }
  OMTensor *o = omTensorCreateEmpty(omTensorGetShape(t), omTensorGetRank(t), ONNX_TYPE_FLOAT); float *q = (float *)omTensorGetDataPtr(o); for (int64_t i = 0; i < n; ++i) q[i] = p[i] * 2 + (e[4] == 's'); OMTensor *os[1] = {o}; return omTensorListCreate(os, 1); }
}
enum { TENSOR, LIST, SORT, TOPK, UNIQUE, RESIZE, LOOKUP, CONVERT, PRINT, CONSTF, SHAREDREAD, RUNSHARED, SESSION, NOPS };
static const char *OPN[] = {"tensor", "list", "sort", "topk", "unique", "resize", "lookup", "convert", "print", "constants", "shared-read", "run-shared-session", "session", "random-normal", "random-uniform"};
struct Buf { OMTensor *t; };
static OMTensor *mk(Rng &r, int t, int rank, int64_t lo, int64_t hi) { std::vector<int64_t> s(rank); for (auto &x : s) x = r.in(lo, hi); OMTensor *o = omTensorCreateEmpty(s.data(), rank, (OM_DATA_TYPE)t); char *p = (char *)omTensorGetDataPtr(o); int64_t n = omTensorGetNumElems(o); for (int64_t i = 0; i < n; ++i) typed::gen(r, t, p + i * typed::size(t), 2); return o; }
static uint64_t dig(OMTensor *t, uint64_t h = 7) { const int64_t *s = omTensorGetShape(t); for (int64_t i = 0; i < omTensorGetRank(t); ++i) h = mixh(h, s[i] * 3 + omTensorGetStrides(t)[i]); return hashBytes(omTensorGetDataPtr(t), omTensorGetBufferSize(t), h) + omTensorGetDataType(t); }
static uint64_t doOp(int op, Rng &r, int tid) {
  uint64_t h = op; static const int NUM[] = {typed::F32, typed::F64, typed::I8, typed::I32, typed::I64, typed::U8, typed::U32, typed::F16, typed::U16};
  switch (op) {
  case TENSOR: { int t = NUM[r.in(0, 8)]; OMTensor *a = mk(r, t, r.in(0, 5), 1, 4); h = dig(a); jitter(); if (omTensorGetRank(a)) { std::vector<int64_t> s(omTensorGetShape(a), omTensorGetShape(a) + omTensorGetRank(a)); std::vector<int64_t> st(s.size(), 1); omTensorSetShape(a, s.data()); omTensorSetStrides(a, st.data()); h = mixh(h, omTensorGetStrides(a)[0]); } omTensorDestroy(a); break; }
  case LIST: { std::vector<OMTensor *> v; for (int i = r.in(0, 5); i > 0; --i) v.push_back(mk(r, typed::F32, 2, 0, 3)); OMTensorList *l = omTensorListCreate(v.data(), v.size()); jitter(); for (int64_t i = 0; i < omTensorListGetSize(l); ++i) h = dig(omTensorListGetOmtByIndex(l, i), h); omTensorListDestroy(l); break; }
  case SORT: case TOPK: { int t = NUM[r.in(0, 8)]; OMTensor *a = mk(r, t, r.in(1, 3), 1, 12); int rank = omTensorGetRank(a); OMTensor *o = omTensorCreateEmpty(omTensorGetShape(a), rank, ONNX_TYPE_INT64); int64_t n = omTensorGetShape(a)[rank - 1]; int64_t *p = (int64_t *)omTensorGetDataPtr(o); for (int64_t i = 0; i < omTensorGetNumElems(o); ++i) p[i] = i % n; jitter(); if (op == SORT) omTensorSort(o, a, rank - 1, r.in(0, 1)); else { omTensorTopK(o, a, rank - 1, r.in(0, 1), n, 1); } h = dig(o); omTensorDestroy(a); omTensorDestroy(o); break; }
  case UNIQUE: { int t = NUM[r.in(0, 6)]; OMTensor *a = mk(r, t, r.in(1, 3), 1, 6); int64_t axis = r.in(-1, omTensorGetRank(a) - 1); uint64_t sorted = r.in(0, 1); OMTensor *tot = omTensorCreateEmpty(nullptr, 0, ONNX_TYPE_INT64); omTensorUniqueCount(tot, a, axis, sorted); int64_t u = *(int64_t *)omTensorGetDataPtr(tot); h = mixh(h, u); jitter();
    std::vector<int64_t> ys(omTensorGetShape(a), omTensorGetShape(a) + omTensorGetRank(a)); int64_t sl; if (axis < 0) { sl = omTensorGetNumElems(a); ys = {u}; } else { sl = ys[axis]; ys[axis] = u; } OMTensor *Y = omTensorCreateEmpty(ys.data(), ys.size(), (OM_DATA_TYPE)t), *I = omTensorCreateEmpty(&u, 1, ONNX_TYPE_INT64), *V = omTensorCreateEmpty(&sl, 1, ONNX_TYPE_INT64), *C = omTensorCreateEmpty(&u, 1, ONNX_TYPE_INT64);
    omTensorUnique(tot, Y, I, V, C, a, axis, sorted); for (auto *x : {Y, I, V, C}) { h = dig(x, h); omTensorDestroy(x); } omTensorDestroy(a); omTensorDestroy(tot); break; }
  case RESIZE: { OMTensor *a = mk(r, typed::F32, 2, 1, 5); int64_t s[2] = {omTensorGetShape(a)[0] * 2, omTensorGetShape(a)[1] + 1}; OMTensor *o = omTensorCreateEmpty(s, 2, ONNX_TYPE_FLOAT); int64_t two = 2; char m1[] = "linear", m2[] = "cubic", nn[] = "floor"; OMTensor *z = omTensorCreateEmpty(&two, 1, ONNX_TYPE_INT64); memcpy(omTensorGetDataPtr(z), s, 16); jitter(); Resize_Size(o, a, z, r.chance(1, 2) ? m1 : m2, nn); h = dig(o);
    OMTensor *sc = omTensorCreateEmpty(&two, 1, ONNX_TYPE_FLOAT); ((float *)omTensorGetDataPtr(sc))[0] = 2; ((float *)omTensorGetDataPtr(sc))[1] = 1; s[1]--; OMTensor *o2 = omTensorCreateEmpty(s, 2, ONNX_TYPE_FLOAT); Resize_Scales(o2, a, sc, r.chance(1, 2) ? m1 : m2, nn); h = dig(o2, h); for (auto *x : {a, o, z, sc, o2}) omTensorDestroy(x); break; }
  case LOOKUP: { static const int32_t G[4] = {1, -2, -1, 3}, V[4] = {2, 0, 3, 1}; for (int i = 0; i < 20; ++i) { int64_t k = (int64_t)r.next(); h = mixh(h, find_index_i64(k, G, V, 4)); h = mixh(h, find_index_str(fmt("k%ld", (long)k).c_str(), G, V, 4)); if (i % 7 == 0) jitter(); } break; }
  case CONVERT: { for (int i = 0; i < 50; ++i) { float f = (float)((r.unit() - 0.5) * pow(10, r.in(-6, 6))); uint16_t b = om_f32_to_f16(f); float g = om_f16_to_f32((uint16_t)r.next()); uint32_t u; memcpy(&u, &g, 4); h = mixh(mixh(h, b), u); } break; }
  case PRINT: { OMTensor *a = mk(r, NUM[r.in(0, 6)], r.in(0, 3), 1, 3); omTensorPrint("%t %s %d\n", a); h = dig(a); omTensorDestroy(a); break; }
  case CONSTF: { int64_t size = r.in(1, 4000); char f[] = "shared.constants.bin"; void *c = nullptr; bool ok = omLoadConstantData(&c, f, size, 1); jitter(); h = ok ? hashBytes(c, size) : 3; void *o = nullptr; if (ok) { omGetExternalConstantAddr(&o, &c, size - 1); h = mixh(h, *(unsigned char *)o); if (!omUnloadConstantData(&c, size)) h = 5; } break; }
  case SHAREDREAD: { h = dig(sharedTensor); OMTensor *o = omTensorCreateEmpty(omTensorGetShape(sharedTensor), 2, ONNX_TYPE_INT64); int64_t n = omTensorGetShape(sharedTensor)[1]; for (int64_t i = 0; i < omTensorGetNumElems(o); ++i) ((int64_t *)omTensorGetDataPtr(o))[i] = i % n; jitter(); omTensorSort(o, sharedTensor, 1, 0); h = dig(o, h); omTensorDestroy(o); break; }
  case RUNSHARED: { OMTensor *a = mk(r, typed::F32, r.in(1, 3), 1, 5); float *p = (float *)omTensorGetDataPtr(a); p[0] = (float)r.unit() - (r.chance(1, 3) ? 1.5f : 0.0f); OMTensor *in[1] = {a}; OMTensorList *l = omTensorListCreate(in, 1); try { OMTensorList *o = sharedSession->run(l); jitter(); h = dig(omTensorListGetOmtByIndex(o, 0)); omTensorListDestroy(o); } catch (std::exception &e) { h = hashStr(e.what()); } h = mixh(h, hashStr(sharedSession->inputSignature() + sharedSession->outputSignature() + sharedSession->compilationInfo())); omTensorListDestroy(l); break; }
  case SESSION: { ctorHash = 0; try { ExecutionSession s(libs[tid], "NONE", r.chance(3, 4)); jitter(); s.setEntryPoint("run_second"); h = mixh(ctorHash, hashStr(s.inputSignature())); OMTensor *a = mk(r, typed::F32, 1, 1, 5); std::vector<OMTensorUniquePtr> in; in.emplace_back(a, omTensorDestroy); ((float *)omTensorGetDataPtr(a))[0] = 1; auto o = s.run(std::move(in)); h = dig(o[0].get(), h); } catch (std::exception &e) { h = hashStr(e.what()); } break; }
  case NOPS: { long n = r.in(1, 400); double seed = r.in(1, 100000); std::vector<double> v(n); std::vector<float> w(n); get_random_normal_value_f64(v.data(), n, 0, 1, seed); get_random_normal_value_f32(w.data(), n, 0, 1, seed + 1); h = hashBytes(v.data(), 8 * n, hashBytes(w.data(), 4 * n)); break; }
  case NOPS + 1: { int64_t n = r.in(1, 800); OMTensor *o = omTensorCreateEmpty(&n, 1, r.chance(1, 2) ? ONNX_TYPE_FLOAT : ONNX_TYPE_DOUBLE); run_uniform_random(o, 0, 1, (float)r.in(1, 100000)); h = dig(o); omTensorDestroy(o); break; }
  }
  return h;
}
struct Barrier { std::atomic<int> n{0}, gen{0}; int T; void wait() { int g = gen.load(); if (n.fetch_add(1) + 1 == T) { n = 0; gen.fetch_add(1); } else while (gen.load() == g) sched_yield(); } };
static void oneCase(Rng &r, long idx, bool rnd) {
  int T = r.in(2, 6), rounds = r.in(4, 14); std::vector<std::vector<int>> ops(T, std::vector<int>(rounds)); std::vector<std::vector<uint64_t>> seeds(T, std::vector<uint64_t>(rounds)), alone = seeds, got = seeds;
  for (int k = 0; k < rounds; ++k) { bool same = r.chance(1, 2); int o = rnd ? NOPS + r.in(0, 1) : r.in(0, NOPS - 1); for (int t = 0; t < T; ++t) { ops[t][k] = same ? o : rnd ? NOPS + r.in(0, 1) : r.in(0, NOPS - 1); seeds[t][k] = r.next(); } }
  int dm = r.in(0, 2); bool barriers = r.chance(2, 3); delayMode = 0;
  bool env = !rnd && r.chance(1, 2); // constants directory given by the user, or set per session
  string base = M->tmp + fmt("/s%d-%ld", getpid(), idx); libs.clear();
  if (!rnd) for (int t = 0; t < T; ++t) { string d = base + fmt("/t%d", t); std::filesystem::create_directories(d); std::filesystem::copy_file(constDir + "/model.so", d + "/model.so"); std::ofstream f(d + "/model.constants.bin"); for (int i = 0; i < 64; ++i) f.put((char)(env ? 9 : t * 17 + 1)); f.close(); libs.push_back(d + "/model.so"); }
  if (env) setenv("OM_CONSTANT_PATH", (base + "/t0").c_str(), 1); else unsetenv("OM_CONSTANT_PATH");
  { std::ofstream f("shared.constants.bin"); for (int i = 0; i < 4096; ++i) f.put((char)(i * 7)); }
  if (env) std::filesystem::copy_file("shared.constants.bin", base + "/t0/shared.constants.bin");
  // without a user-given directory, a session sets it while it loads: keep constant files out of those cases
  if (!env) for (auto &v : ops) for (int &o : v) if (o == CONSTF) { bool any = false; for (auto &w : ops) for (int x : w) any |= x == SESSION; if (any) o = SORT; }
  for (int t = 0; t < T; ++t) for (int k = 0; k < rounds; ++k) { Rng q(seeds[t][k]); alone[t][k] = doOp(ops[t][k], q, t); M->ev(); }
  ticket = 0; std::vector<std::pair<int, int>> order(T * rounds * 2, {-1, -1}); Barrier b; b.T = T; std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.emplace_back([&, t] { delayMode = dm; delaySeed = seeds[t][0]; for (int k = 0; k < rounds; ++k) { if (barriers) b.wait(); int a = ticket.fetch_add(1, std::memory_order_relaxed); order[a] = {t, k}; Rng q(seeds[t][k]); got[t][k] = doOp(ops[t][k], q, t); int e = ticket.fetch_add(1, std::memory_order_relaxed); order[e] = {t, -k - 1}; } });
  for (auto &t : th) t.join();
  uint64_t h = 0; for (auto &o : order) h = mixh(h, o.first * 100 + o.second); for (auto &v : ops) for (int o : v) h = mixh(h, o); M->distinct(h); M->count("concurrent_operations", T * rounds);
  // overlap actually seen: operations open at the same time
  int open = 0, most = 0; long overlap = 0; for (auto &o : order) { if (o.second >= 0) { if (open) ++overlap; most = std::max(most, ++open); } else --open; } M->count("operations_started_while_another_ran", overlap);
  for (int t = 0; t < T; ++t) for (int k = 0; k < rounds; ++k) if (alone[t][k] != got[t][k]) M->violate(string("thread-result:") + OPN[ops[t][k]], fmt("%d threads, thread %d round %d, environment %d", T, t, k, (int)env));
  M->sample(fmt("%d threads %d rounds barriers %d delay %d first op %s", T, rounds, (int)barriers, dm, OPN[ops[0][0]]));
  std::filesystem::remove_all(base); unsetenv("OM_CONSTANT_PATH");
}
int main(int argc, char **argv) { Mon m; M = &m; long n = atol(argv[1]); constDir = M->tmp + "/lib"; std::filesystem::create_directories(constDir); std::filesystem::copy_file(argv[2], constDir + "/model.so"); if (chdir(M->tmp.c_str())) return 1;
  auto init = [&] { static bool done = false; if (done) return; done = true; Rng q(5); int64_t s[2] = {4, 9}; sharedTensor = omTensorCreateEmpty(s, 2, ONNX_TYPE_FLOAT); for (int i = 0; i < 36; ++i) ((float *)omTensorGetDataPtr(sharedTensor))[i] = q.in(0, 9); sharedSession = new ExecutionSession(constDir + "/model.so", "NONE"); };
  string mydir = M->tmp + fmt("/w%d", M->shard); std::filesystem::create_directories(mydir); if (chdir(mydir.c_str())) return 1;
  m.run("threads", n, [&](Rng &r, long i) { init(); oneCase(r, i, false); }, 120);
  m.run("random-threads", n / 4, [&](Rng &r, long i) { oneCase(r, i, true); }, 120);
  return m.finish(); }
