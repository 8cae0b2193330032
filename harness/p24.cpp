// P24: lifetime of the buffers behind disposable constants, observed through the deleters of buffers and transformations, against a model of what the module can reach.
#include "elemgen.hpp"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"
#include "src/Compiler/DisposableGarbageCollector.hpp"
#include "src/Accelerators/NNPA/Compiler/ZHighDisposableGarbageCollector.hpp"
#include "src/Dialect/ONNX/OnnxElementsAttrBuilder.hpp"
#include <mutex>
#include <set>
#include <thread>
namespace onnx_mlir { std::unique_ptr<mlir::Pass> createScrubDisposablePass(bool); namespace zhigh { std::unique_ptr<mlir::Pass> createZHighScrubDisposablePass(bool); } }

// ---- what is alive ----
static std::mutex LM; static std::set<int> live; static int nextId; static long freed;
static int born() { std::lock_guard<std::mutex> g(LM); live.insert(++nextId); return nextId; }
static void gone(int id) { std::lock_guard<std::mutex> g(LM); if (!live.erase(id)) M->violate("freed-twice", ""); ++freed; }
struct Token { int id = born(); ~Token() { gone(id); } };
struct TBuf : llvm::MemoryBuffer { char *p; size_t n; int id; TBuf(const std::vector<char> &b) : n(b.size()), id(born()) { p = (char *)malloc(n + 1); memcpy(p, b.data(), n); p[n] = 0; init(p, p + n, false); } ~TBuf() override { memset(p, 0xdb, n); free(p); gone(id); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } };
struct Cst { ElementsAttr e; Ten m; std::set<int> src; };
using B = ElementsAttrBuilder;

static Cst fresh(Rng &r, World &w, B &b, int64_t maxN = 120) {
  Cst c; int t = r.chance(1, 2) ? typeNo(r.pick(std::vector<const char *>{"f32", "i64", "i1"})) : r.in(0, NT - 1); c.m = rnd(r, t, r.chance(1, 12) ? V{r.in(20, 40), r.in(20, 50)} : rndShape(r, 3, maxN), false); auto ty = w.type(c.m); auto by = bytes(c.m);
  switch (r.in(0, 5)) {
  case 0: c.e = b.fromWideNums(ty, [&](MutableArrayRef<WideNum> d) { for (size_t i = 0; i < d.size(); ++i) d[i] = wide(t, c.m.raw[i]); }); break;
  case 1: { DenseElementsAttr d = [&] { Ten &m = c.m; if (TYPES[m.t].kind == 'b') { std::vector<char> v(m.raw.begin(), m.raw.end()); return DenseElementsAttr::get(ty, ArrayRef<bool>((bool *)v.data(), v.size())); } return DenseElementsAttr::getFromRawBuffer(ty, ArrayRef<char>(by)); }(); c.e = d; if (auto x = b.toDisposableElementsAttr(d)) c.e = x; break; }
  default: { auto buf = std::make_unique<TBuf>(by); c.src.insert(buf->id); c.e = b.fromMemoryBuffer(ty, std::move(buf)); } }
  return c; }
static Cst derived(Rng &r, World &w, B &b, const Cst &x) {
  Cst c = x; const Ten &m = x.m; size_t rk = m.shape.size(); auto *ctx = &w.ctx; int k = r.in(0, 6); if (m.n() > 4000) k = 4;
  if (k == 0) { std::vector<uint64_t> p(rk); for (size_t i = 0; i < rk; ++i) p[i] = i; r.shuffle(p); c.m = permuted(m, p); c.e = b.transpose(x.e, p); }
  else if (k == 1) { c.m.shape = rndReshape(r, m.shape); c.e = b.reshape(x.e, c.m.shape); }
  else if (k == 2) { V sh = m.shape; if (sh.size() < 5) sh.insert(sh.begin(), r.in(1, 3)); c.m = *expanded(m, sh); c.e = b.expand(x.e, sh); }
  else if (k == 3 && rk) { unsigned ax = r.in(0, rk - 1); int64_t d = m.shape[ax], at = r.in(0, d); V sz = {at, d - at}; auto parts = b.split(x.e, ax, sz); int q = r.in(0, 1); c.m.shape[ax] = sz[q]; c.m.raw.resize(num(c.m.shape)); for (int64_t f = 0; f < c.m.n(); ++f) { V i = idxOf(c.m.shape, f); if (q) i[ax] += at; c.m.raw[f] = m.raw[flatOf(m.shape, i)]; } c.e = parts[q]; }
  else if (TYPES[m.t].kind != 'b') { double d = r.in(0, 1); Ten o = m; o.exact = false; for (auto &v : o.raw) { auto p = patternOf(m.t, valueOf(m.t, v) + d); if (!p) return c; v = *p; } c.m = o; auto tok = std::make_shared<Token>(); c.src.insert(tok->id);
    c.e = wideZeroDispatchNonBool(mlirType(m.t, ctx), [&](auto z) { using T = decltype(z); std::function<T(T)> f = [tok, d](T v) -> T { return v + (T)(d * (tok->id > 0)); }; return b.transform(x.e, mlirType(m.t, ctx), widenumWrapped<T, T>(f)); }); }
  return c; }
static bool quick(const Cst &c) { return dispatchByBType(TYPES[c.m.t].bt, [&](auto bt) -> bool { using T = CppType<bt>; auto a = getElementsArray<T>(c.e); if ((int64_t)a.get().size() != c.m.n()) return false; for (int64_t i = 0; i < c.m.n(); ++i) { uint64_t g = 0; T x = a.get()[i]; memcpy(&g, &x, sizeof x); if (!same(c.m, c.m.raw[i], g)) return false; } return true; }); }

// ---- a module and what it refers to ----
struct Dict { std::vector<std::pair<StringRef, StringRef>> v; };
static const Dict ONNX{{{"onnx.Constant", "value"}, {"onnx.ConstantOfShape", "value"}}}, ZHIGH{{{"onnx.Constant", "value"}, {"onnx.ConstantOfShape", "value"}, {"zhigh.StickifiedConstant", "value"}}}, TWO{{{"onnx.Constant", "value"}, {"onnx.ConstantOfShape", "value"}, {"onnx.Constant", "sparse_value"}}};
struct Slot { Operation *op; string attr; Cst c; };
static Operation *newOp(MLIRContext *ctx, StringRef name, Block *blk, Rng &r, bool region = false) { OperationState st(UnknownLoc::get(ctx), name); if (region) { Region *rg = st.addRegion(); rg->push_back(new Block); } Operation *op = Operation::create(st); auto it = blk->begin(); int k = r.in(0, (int64_t)std::distance(blk->begin(), blk->end())); if (!blk->empty() && blk->back().hasTrait<OpTrait::IsTerminator>()) k = std::min<int>(k, std::distance(blk->begin(), blk->end()) - 1); std::advance(it, k); blk->getOperations().insert(it, op); return op; }
struct Mod { World &w; MLIRContext *ctx; const Dict &d; std::vector<Slot> slots; std::vector<Block *> blocks;
  Mod(World &w, const Dict &d) : w(w), ctx(&w.ctx), d(d) {}
  void attach(Rng &r, const Cst &c) { auto p = d.v[r.in(0, (int64_t)d.v.size() - 1)]; Operation *op = nullptr; if (r.chance(1, 4)) for (auto &s : slots) if (s.op->getName().getStringRef() == p.first && !s.op->hasAttr(p.second)) op = s.op; if (!op) op = newOp(ctx, p.first, r.pick(blocks), r); op->setAttr(p.second, c.e); if (r.chance(1, 4)) op->setAttr("note", StringAttr::get(ctx, "keep")); slots.push_back({op, p.second.str(), c}); }
  void replace(Rng &r, const Cst &c) { if (slots.empty()) return; Slot &s = slots[r.in(0, (int64_t)slots.size() - 1)]; s.op->setAttr(s.attr, c.e); s.c = c; }
  void detach(Rng &r) { if (slots.empty()) return; size_t i = r.in(0, slots.size() - 1); Slot s = slots[i]; if (r.chance(1, 2)) { s.op->removeAttr(s.attr); slots.erase(slots.begin() + i); bool other = false; for (auto &q : slots) other |= q.op == s.op; if (!other && r.chance(1, 2)) s.op->erase(); } else { Operation *op = s.op; slots.erase(std::remove_if(slots.begin(), slots.end(), [&](Slot &q) { return q.op == op; }), slots.end()); op->erase(); } }
  void move(Rng &r) { if (slots.empty()) return; Operation *op = r.pick(slots).op; Block *b = r.pick(blocks); op->moveBefore(b, b->begin()); }
  bool values(const char *when, bool text, bool deep) { for (auto &s : slots) { auto e = s.op->getAttrOfType<ElementsAttr>(s.attr); if (!e) { M->violate(string(when) + ":attribute-lost", ""); return false; } if (deep ? !agrees(w, e, s.c.m, text, when) : !quick({e, s.c.m, {}})) { if (!deep) M->violate(string(when) + ":elements", describe(s.c.m)); return false; } } return true; }
  bool alive(const char *when, const std::set<int> &held = {}) { std::set<int> may = held; for (auto &s : slots) may.insert(s.c.src.begin(), s.c.src.end()); std::lock_guard<std::mutex> g(LM); M->ev(); for (int id : live) if (!may.count(id)) { M->violate(string(when) + ":not-freed", fmt("%zu alive, %zu reachable sources", live.size(), may.size())); return false; } return true; }
  bool scrubbed(const char *when) { for (auto &s : slots) { auto a = s.op->getAttr(s.attr); if (!a || !isa<DenseElementsAttr>(a)) { M->violate(string(when) + ":not-dense", ""); return false; } s.c.e = cast<ElementsAttr>(a); s.c.src.clear(); } return values(when, false, true) && alive(when); } };

static void history(Rng &r, long) {
  live.clear(); freed = 0; bool threads = r.chance(1, 3); const Dict &d = *r.pick(std::vector<const Dict *>{&ONNX, &ZHIGH, &TWO}); uint64_t h = threads; bool text = r.chance(1, 6);
  { World w(threads); w.ctx.allowUnregisteredDialects(true); B b(*w.pool); OwningOpRef<ModuleOp> module = ModuleOp::create(UnknownLoc::get(&w.ctx)); Mod m(w, d); m.blocks.push_back(module->getBody());
    for (int i = r.in(0, 3); i--;) { Block *at = r.pick(m.blocks); if (r.chance(1, 3)) { auto in = ModuleOp::create(UnknownLoc::get(&w.ctx)); at->push_back(in); m.blocks.push_back(in.getBody()); } else m.blocks.push_back(&newOp(&w.ctx, "onnx.If", at, r, true)->getRegion(0).front()); }
    std::vector<Cst> free; bool closed = false; int steps = r.in(5, 60);
    for (int s = 0; s < steps; ++s) {
      int k = r.in(0, 15); h = mixh(h, k); M->count(k == 12 || k == 13 ? "collected" : k == 14 ? "scrubbed" : "mutated");
      auto some = [&]() -> Cst { std::vector<Cst *> p; for (auto &c : free) p.push_back(&c); for (auto &q : m.slots) p.push_back(&q.c); return p.empty() ? fresh(r, w, b) : *r.pick(p); };
      if (k < 3) free.push_back(fresh(r, w, b)); else if (k < 6) free.push_back(derived(r, w, b, some())); else if (k < 8) m.attach(r, some()); else if (k == 8) m.replace(r, some()); else if (k < 11) m.detach(r); else if (k == 11) m.move(r);
      else if (k < 14) { w.pool->garbageCollectUnreachable(*module, d.v); free.clear(); if (!m.values("collect", text, r.chance(1, 3)) || !m.alive("collect")) return; h = mixh(h, m.slots.size()); }
      else if (k == 14 && r.chance(1, 3)) { w.pool->scrub(*module, d.v); free.clear(); if (!m.scrubbed("scrub")) return; if (!closed && r.chance(1, 4)) { w.pool->close(); closed = true; } if (w.pool->isActive() == closed) M->violate("active", ""); M->count(closed ? "closed" : "reopened"); }
      for (auto &c : free) if (closed && isa<DisposableElementsAttr>(c.e)) { M->violate("created-after-close", ""); return; }
      for (auto &c : free) if (r.chance(1, 5) && !quick(c)) { M->violate("unattached:elements", describe(c.m)); return; } }
    if (r.chance(1, 2)) { w.pool->scrub(*module, d.v); if (!m.scrubbed("final-scrub")) return; w.pool->close(); Cst c = fresh(r, w, b); if (isa<DisposableElementsAttr>(c.e) || !quick(c)) M->violate("created-after-close", describe(c.m)); if (!m.alive("closed")) return; }
    M->distinct(h); }
  if (!live.empty()) M->violate("context:not-freed", fmt("%zu alive", live.size())); M->count("freed", freed); }

// ---- threads creating, deriving and reading at the same time, then one collection ----
static void jitter(Rng &r) { if (r.chance(1, 6)) std::this_thread::yield(); else if (r.chance(1, 20)) usleep(r.in(0, 200)); }
static void creators(Rng &r, long) {
  live.clear(); freed = 0; { World w(true); w.ctx.allowUnregisteredDialects(true); B b(*w.pool); OwningOpRef<ModuleOp> module = ModuleOp::create(UnknownLoc::get(&w.ctx)); Mod m(w, ONNX); m.blocks.push_back(module->getBody());
    std::vector<Cst> shared; for (int i = r.in(1, 5); i--;) shared.push_back(fresh(r, w, b)); int T = r.in(2, 8), rounds = r.in(1, 3);
    for (int round = 0; round < rounds; ++round) { std::vector<std::vector<Cst>> made(T); std::vector<string> bad(T); std::vector<uint64_t> seeds; for (int t = 0; t < T; ++t) seeds.push_back(r.next()); std::vector<std::thread> th; int each = r.in(3, 25);
      for (int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng q(seeds[t]); for (int i = 0; i < each; ++i) { jitter(q); Cst c = q.chance(1, 3) ? fresh(q, w, b, 60) : derived(q, w, b, !made[t].empty() && q.chance(1, 2) ? q.pick(made[t]) : q.pick(shared)); jitter(q); if (!quick(c)) bad[t] = describe(c.m); if (!w.pool->isActive()) bad[t] = "inactive"; made[t].push_back(c); } });
      for (auto &t : th) t.join(); for (auto &s : bad) if (!s.empty()) { M->violate("concurrent:elements", s); return; }
      for (auto &v : made) for (auto &c : v) if (r.chance(1, 2)) m.attach(r, c); for (auto &c : shared) if (r.chance(1, 2)) m.attach(r, c); M->count("created_concurrently", T * each); M->distinct(mixh(r.s, T));
      if (r.chance(2, 3)) { w.pool->garbageCollectUnreachable(*module, ONNX.v); if (!m.values("collect", false, false) || !m.alive("collect")) return; } else { w.pool->scrub(*module, ONNX.v); if (!m.scrubbed("scrub")) return; }
      shared.clear(); for (auto &s : m.slots) if (r.chance(1, 4)) shared.push_back(s.c); if (shared.empty()) shared.push_back(fresh(r, w, b)); while (m.slots.size() > 30) m.detach(r); }
    w.pool->scrub(*module, ONNX.v); if (!m.scrubbed("final-scrub")) return; w.pool->close(); if (!m.alive("closed")) return; }
  if (!live.empty()) M->violate("context:not-freed", fmt("%zu alive", live.size())); M->count("freed", freed); }

// ---- the collector and the scrubber as the compiler runs them, between passes over functions in parallel ----
struct Shape { std::vector<std::unique_ptr<Mod>> fn; std::vector<uint64_t> seed; std::mutex m; string bad; uint64_t round = 0; const Dict *d; std::set<int> heldOver; bool deep; };
struct Mutate : PassWrapper<Mutate, OperationPass<func::FuncOp>> { MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Mutate) Shape *s; uint64_t salt; Mutate(Shape *s, uint64_t salt) : s(s), salt(salt) {} Mutate(const Mutate &o) : PassWrapper(o), s(o.s), salt(o.salt) {} StringRef getArgument() const override { return "verif-mutate"; }
  void runOnOperation() final { int i = atoi(getOperation().getName().str().c_str() + 1); Rng r(mixh(s->seed[i], salt)); Mod &m = *s->fn[i]; OnnxElementsAttrBuilder b(&getContext()); std::vector<Cst> local; for (int k = r.in(0, 12); k--;) { jitter(r); std::vector<Cst> have = local; for (auto &q : m.slots) have.push_back(q.c); switch (r.in(0, 5)) { case 0: local.push_back(fresh(r, m.w, b, 60)); break; case 1: local.push_back(have.empty() ? fresh(r, m.w, b, 60) : derived(r, m.w, b, r.pick(have))); break; case 2: case 3: m.attach(r, have.empty() ? fresh(r, m.w, b, 60) : r.pick(have)); break; case 4: m.detach(r); break; default: if (!have.empty()) m.replace(r, derived(r, m.w, b, r.pick(have))); } }
    for (auto &q : m.slots) if (!quick({q.op->getAttrOfType<ElementsAttr>(q.attr), q.c.m, {}})) { std::lock_guard<std::mutex> g(s->m); s->bad = describe(q.c.m); } } };
struct Watch : PassWrapper<Watch, OperationPass<ModuleOp>> { MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Watch) Shape *s; bool dense; Watch(Shape *s, bool dense) : s(s), dense(dense) {} Watch(const Watch &o) : PassWrapper(o), s(o.s), dense(o.dense) {} StringRef getArgument() const override { return "verif-watch"; }
  void runOnOperation() final { if (!s->bad.empty()) return; std::set<int> may; for (auto &m : s->fn) for (auto &q : m->slots) may.insert(q.c.src.begin(), q.c.src.end()); for (auto &m : s->fn) { if (dense ? !m->scrubbed("scrub-pass") : !(m->values("pass", false, s->deep) && m->alive("pass", may))) { s->bad = "reported"; return; } M->count(dense ? "functions_scrubbed" : "functions_checked"); } } };
static void pipeline(Rng &r, long) {
  live.clear(); freed = 0; Shape s; { bool threads = r.chance(2, 3), zhigh = r.chance(1, 2); World w(threads); w.ctx.allowUnregisteredDialects(true); w.ctx.getOrLoadDialect<func::FuncDialect>(); s.d = zhigh ? &ZHIGH : &ONNX; s.deep = r.chance(1, 3); OwningOpRef<ModuleOp> module = ModuleOp::create(UnknownLoc::get(&w.ctx)); int F = r.in(1, 6);
    for (int i = 0; i < F; ++i) { auto f = func::FuncOp::create(UnknownLoc::get(&w.ctx), "f" + std::to_string(i), FunctionType::get(&w.ctx, {}, {})); Block *blk = f.addEntryBlock(); OpBuilder ob = OpBuilder::atBlockEnd(blk); ob.create<func::ReturnOp>(f.getLoc()); module->push_back(f); s.fn.push_back(std::make_unique<Mod>(w, *s.d)); s.fn.back()->blocks.push_back(blk); if (r.chance(1, 2)) s.fn.back()->blocks.push_back(&newOp(&w.ctx, "onnx.Loop", blk, r, true)->getRegion(0).front()); s.seed.push_back(r.next()); }
    PassManager pm(&w.ctx, ModuleOp::getOperationName()); pm.enableVerifier(false); if (zhigh) pm.addInstrumentation(std::make_unique<zhigh::ZHighDisposableGarbageCollector>(&w.ctx)); else pm.addInstrumentation(std::make_unique<DisposableGarbageCollector>(&w.ctx)); int rounds = r.in(1, 6); bool close = r.chance(1, 2), scrub = r.chance(3, 4); uint64_t h = F * 8 + threads * 4 + zhigh * 2 + close;
    for (int k = 0; k < rounds; ++k) { pm.addNestedPass<func::FuncOp>(std::make_unique<Mutate>(&s, r.next())); pm.addPass(std::make_unique<Watch>(&s, false)); if (r.chance(1, 8)) { pm.addPass(zhigh ? zhigh::createZHighScrubDisposablePass(false) : createScrubDisposablePass(false)); pm.addPass(std::make_unique<Watch>(&s, true)); h = mixh(h, k); } }
    if (scrub) { pm.addPass(zhigh ? zhigh::createZHighScrubDisposablePass(close) : createScrubDisposablePass(close)); pm.addPass(std::make_unique<Watch>(&s, true)); if (r.chance(1, 2)) { pm.addNestedPass<func::FuncOp>(std::make_unique<Mutate>(&s, r.next())); pm.addPass(std::make_unique<Watch>(&s, close)); } }
    if (failed(pm.run(*module))) M->violate("pipeline:failed", ""); if (!s.bad.empty() && s.bad != "reported") M->violate("pipeline:elements", s.bad); if (w.pool->isActive() == (scrub && close)) M->violate("pipeline:active", ""); M->ev(); M->distinct(mixh(h, r.s)); s.fn.clear(); }
  if (!live.empty()) M->violate("context:not-freed", fmt("%zu alive", live.size())); M->count("freed", freed); }
int main(int argc, char **argv) { Mon mon; M = &mon; long n = argc > 1 ? atol(argv[1]) : 1000; string only = argc > 2 ? argv[2] : ""; if (only.empty()) M->run("history", n, history, 60, 500); M->run("creators", n / 8, creators, 60, 200); M->run("pipeline", n / 4, pipeline, 60, 300); return mon.finish(); }
