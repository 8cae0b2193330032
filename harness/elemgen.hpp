// Random constants in the many forms the builder gives them, shared by P23-P25.
#pragma once
#include "elemref.hpp"
#include "mlir/IR/BuiltinAttributes.h"
using namespace mlir; using namespace onnx_mlir;
static World *W; static bool closedPool;
static uint64_t smallValue(Rng &r, int t) { if (TYPES[t].kind == 'b') return r.chance(1, 2); for (;;) { double v = (double)r.in(TYPES[t].kind == 'u' ? 0 : -4, 5); if (isF(t) && r.chance(1, 3)) v += 0.5; if (auto p = patternOf(t, v)) return *p; } }
static uint64_t anyValue(Rng &r, int t) { if (TYPES[t].kind == 'b') return r.chance(1, 2); uint64_t u = r.next() & maskOf(t); switch (r.in(0, 7)) { case 0: u = 0; break; case 1: u = 1ull << (TYPES[t].bits - 1); break; case 2: u = maskOf(t); break; case 3: u = maskOf(t) >> 1; break; } return u; }
static Ten rnd(Rng &r, int t, const V &s, bool extreme, int splat = 5) { Ten m; m.t = t; m.shape = s; m.raw.resize(num(s)); bool sp = r.chance(1, splat); uint64_t v = extreme ? anyValue(r, t) : smallValue(r, t); for (auto &x : m.raw) x = sp ? v : extreme ? anyValue(r, t) : smallValue(r, t); return m; }
static V rndShape(Rng &r, int maxRank, int64_t maxN, bool zeros = true) { V s; int k = r.in(0, maxRank); for (int i = 0; i < k; ++i) { int64_t d = zeros && r.chance(1, 25) ? 0 : r.chance(1, 4) ? 1 : r.chance(1, 8) ? r.in(5, 9) : r.in(2, 4); if (num(s) * d > maxN) d = 1; s.push_back(d); } return s; }
static Ten permuted(const Ten &m, const std::vector<uint64_t> &p) { Ten o = m; o.shape.clear(); for (auto x : p) o.shape.push_back(m.shape[x]); for (int64_t f = 0; f < o.n(); ++f) { V i = idxOf(o.shape, f), q(i.size()); for (size_t a = 0; a < p.size(); ++a) q[p[a]] = i[a]; o.raw[f] = m.raw[flatOf(m.shape, q)]; } return o; }
static std::optional<Ten> expanded(const Ten &m, const V &s) { Ten o = m; o.shape = s; o.raw.resize(num(s)); size_t lead = s.size() - m.shape.size(); for (int64_t f = 0; f < num(s); ++f) { V i = idxOf(s, f), q(m.shape.size()); for (size_t a = 0; a < q.size(); ++a) q[a] = m.shape[a] == 1 ? 0 : i[a + lead]; o.raw[f] = m.raw[flatOf(m.shape, q)]; } return o; }
// the constant holding these elements, in one of its many forms
static DenseElementsAttr denseOf(const Ten &m, bool splat) { auto ty = W->type(m); if (TYPES[m.t].kind == 'b') { std::vector<char> v(m.raw.begin(), m.raw.end()); if (splat) return DenseElementsAttr::get(ty, (bool)v[0]); return DenseElementsAttr::get(ty, ArrayRef<bool>((bool *)v.data(), v.size())); } Ten q = m; if (splat) q.raw.resize(1); auto by = bytes(q); return DenseElementsAttr::getFromRawBuffer(ty, ArrayRef<char>(by)); }
static ElementsAttr make(Rng &r, const Ten &m, int depth = 0) {
  ElementsAttrBuilder &b = *W->b; bool allSame = m.n() > 0 && std::all_of(m.raw.begin(), m.raw.end(), [&](uint64_t x) { return x == m.raw[0]; }); auto ty = W->type(m);
  if (depth < 2 && m.shape.size() >= 2 && r.chance(1, 3)) { std::vector<uint64_t> p(m.shape.size()), q(p.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i; r.shuffle(p); for (size_t i = 0; i < p.size(); ++i) q[p[i]] = i; return b.transpose(make(r, permuted(m, p), depth + 1), q); }
  if (allSame && r.chance(2, 3)) { if (r.chance(1, 2)) return denseOf(m, true); Ten s = m; s.shape = V(r.in(0, (int64_t)m.shape.size()), 1); s.raw.resize(1); return b.expand(make(r, s, 2), m.shape); }
  if (depth < 2 && r.chance(1, 5)) { Ten s = m; s.shape = {m.n()}; return b.reshape(make(r, s, depth + 1), m.shape); }
  auto by = bytes(m);
  switch (r.in(0, 5)) {
  case 0: return denseOf(m, false);
  case 1: return b.fromMemoryBuffer(ty, llvm::MemoryBuffer::getMemBufferCopy(StringRef(by.data(), by.size())));
  case 2: return b.fromWideNums(ty, [&](MutableArrayRef<WideNum> d) { if ((int64_t)d.size() != m.n()) M->violate("filler-size", ""); for (size_t i = 0; i < d.size(); ++i) d[i] = wide(m.t, m.raw[i]); });
  case 3: return dispatchByBType(TYPES[m.t].bt, [&](auto bt) { using T = CppType<bt>; return b.fromArray<T>(ty, [&](MutableArrayRef<T> d) { if ((int64_t)d.size() != m.n()) M->violate("filler-size", ""); memcpy((void *)d.data(), by.data(), by.size()); }); });
  default: { DenseElementsAttr d = denseOf(m, allSame && r.chance(1, 2)); auto x = b.toDisposableElementsAttr(d); if (closedPool != !x) M->violate("to-disposable", closedPool ? "pool closed" : "refused"); if (!x) return d; if (b.toDisposableElementsAttr(x) != x) M->violate("to-disposable", "again"); return x; } } }
static V rndReshape(Rng &r, const V &s) { int64_t n = num(s); V o; if (!n) { o = rndShape(r, 3, 60, false); o.insert(o.begin() + r.in(0, o.size()), 0); return o; } if (r.chance(1, 3)) { o = s; for (int k = r.in(1, 3); k--;) { if (o.size() > 1 && r.chance(1, 2)) { size_t a = r.in(0, o.size() - 2); o[a] *= o[a + 1]; o.erase(o.begin() + a + 1); } else if (!o.empty()) { size_t a = r.in(0, o.size() - 1); for (int64_t f : {2, 3, 4}) if (o[a] % f == 0 && r.chance(1, 2)) { o.insert(o.begin() + a, f); o[a + 1] /= f; break; } } } } else { int64_t m = n; while (m > 1 && o.size() < 5) { V d; for (int64_t k = 2; k <= m; ++k) if (m % k == 0) d.push_back(k); int64_t k = r.pick(d); o.push_back(k); m /= k; } if (m > 1) o.push_back(m); }
  for (int u = r.in(0, 2); u--;) o.insert(o.begin() + r.in(0, o.size()), 1); return o; }
static V broadcastable(Rng &r, const V &s) { V o = s; for (auto &d : o) if (r.chance(1, 3)) d = 1; int cut = r.chance(1, 3) ? r.in(0, o.size()) : 0; o.erase(o.begin(), o.begin() + cut); return o; } // broadcasts to s
static string valueList(const Ten &m) { string s; for (int64_t i = 0; i < m.n() && i < 12; ++i) s += fmt("%g ", valueOf(m.t, m.raw[i])); return s; }
