// P23: the real constant-tensor operations against dense reference tensors.
#include "elemgen.hpp"
struct Item { ElementsAttr e; Ten m; };

// ---- combiners and transformations, built the way constant propagation builds them ----
struct Add {}; struct Sub {}; struct Mul {}; struct Mx {}; struct Mn {}; struct Lt {}; struct Eq {};
template <class OP, class T, class = void> struct Bin;
template <class T> struct Bin<Add, T> { static T eval(T a, T b) { if constexpr (std::is_same_v<T, bool>) return a != b; else if constexpr (std::is_integral_v<T>) return (T)((uint64_t)a + (uint64_t)b); else return a + b; } };
template <class T> struct Bin<Sub, T> { static T eval(T a, T b) { if constexpr (std::is_same_v<T, bool>) return a && !b; else if constexpr (std::is_integral_v<T>) return (T)((uint64_t)a - (uint64_t)b); else return a - b; } };
template <class T> struct Bin<Mul, T> { static T eval(T a, T b) { if constexpr (std::is_same_v<T, bool>) return a && b; else if constexpr (std::is_integral_v<T>) return (T)((uint64_t)a * (uint64_t)b); else return a * b; } };
template <class T> struct Bin<Mx, T> { static T eval(T a, T b) { return a > b ? a : b; } };
template <class T> struct Bin<Mn, T> { static T eval(T a, T b) { return a < b ? a : b; } };
template <class T> struct Bin<Lt, T> { static bool eval(T a, T b) { return a < b; } };
template <class T> struct Bin<Eq, T> { static bool eval(T a, T b) { return a == b; } };
template <class OP, class T> using BinT = Bin<OP, T>;
using Fn2 = WideNum (*)(WideNum, WideNum);
static Fn2 combiner(int op, Type t) { switch (op) { case 0: return getWideNumWrappedTemplateFunction<BinT, Add>(t); case 1: return getWideNumWrappedTemplateFunction<BinT, Sub>(t); case 2: return getWideNumWrappedTemplateFunction<BinT, Mul>(t); case 3: return getWideNumWrappedTemplateFunction<BinT, Mx>(t); case 4: return getWideNumWrappedTemplateFunction<BinT, Mn>(t); case 5: return getWideNumWrappedTemplateFunction<BinT, Lt>(t); default: return getWideNumWrappedTemplateFunction<BinT, Eq>(t); } }
static double model2(int op, double a, double b, bool boolean) { switch (op) { case 0: return boolean ? a != b : a + b; case 1: return boolean ? a && !b : a - b; case 2: return boolean ? a && b : a * b; case 3: return a > b ? a : b; case 4: return a < b ? a : b; case 5: return a < b; default: return a == b; } }
static const char *OPN[] = {"add", "sub", "mul", "max", "min", "less", "equal"};


static void program(Rng &r, long) {
  ElementsAttrBuilder &b = *W->b; auto *ctx = &W->ctx; bool extreme = r.chance(1, 4), big = r.chance(1, 60); int t0 = r.in(0, NT - 1); if (r.chance(1, 8)) t0 = typeNo("i1");
  std::vector<Item> items; string trace; const int64_t LIM = big ? 6000 : 400; bool ok = true; const char *op = "make";
  auto check = [&](ElementsAttr e, Ten m, const string &how) { if (!ok) return; m.how = trace + how; trace += how; bool good = agrees(*W, e, m, r.chance(1, 4), op); M->distinct(hashStr(m.how)); M->sample(describe(m)); if (!good) { ok = false; return; } m.how.clear(); items.push_back({e, m}); if (items.size() > 6) items.erase(items.begin() + r.in(0, 5)); };
  { Ten m = rnd(r, t0, big ? V{r.in(20, 40), r.in(30, 60), r.in(1, 3)} : rndShape(r, 4, 120), extreme); auto e = make(r, m); check(e, m, string(extreme ? "x" : "") + " " + TYPES[t0].name + show(m.shape)); }
  int steps = r.in(2, big ? 5 : 9);
  for (int s = 0; s < steps && ok; ++s) {
    size_t xi = r.in(0, items.size() - 1); if (r.chance(1, 2)) xi = items.size() - 1; ElementsAttr x = items[xi].e; Ten m = items[xi].m; int t = m.t; size_t rk = m.shape.size(); bool isB = TYPES[t].kind == 'b'; Type et = mlirType(t, ctx); if (m.n() > LIM) continue;
    switch (r.in(0, 20)) {
    case 0: { op = "transpose"; std::vector<uint64_t> p(rk); for (size_t i = 0; i < rk; ++i) p[i] = i; r.shuffle(p); check(b.transpose(x, p), permuted(m, p), " T" + show(p)); break; }
    case 1: case 2: { op = "reshape"; Ten o = m; o.shape = rndReshape(r, m.shape); check(b.reshape(x, o.shape), o, " R" + show(o.shape)); break; }
    case 3: { op = "expand"; V sh = m.shape; for (auto &d : sh) if (d == 1 && r.chance(1, 2)) d = r.chance(1, 12) ? 0 : r.in(1, 4); for (int i = r.in(0, 2); i--;) sh.insert(sh.begin(), r.in(1, 3)); if (num(sh) > LIM || sh.size() > 6) break; check(b.expand(x, sh), *expanded(m, sh), " E" + show(sh)); break; }
    case 4: { op = "split"; if (!rk) break; unsigned ax = r.in(0, rk - 1); int64_t left = m.shape[ax]; V sz; int parts = r.in(1, 4); for (int i = 0; i < parts; ++i) { int64_t k = i == parts - 1 ? left : r.in(0, left); sz.push_back(k); left -= k; } auto res = b.split(x, ax, sz); if (res.size() != sz.size()) { M->violate("split:count", describe(m)); return; } int64_t off = 0; size_t keep = r.in(0, sz.size() - 1); string base = trace;
      for (size_t k = 0; k < sz.size() && ok; ++k) { Ten o = m; o.shape[ax] = sz[k]; o.raw.resize(num(o.shape)); for (int64_t f = 0; f < o.n(); ++f) { V i = idxOf(o.shape, f); i[ax] += off; o.raw[f] = m.raw[flatOf(m.shape, i)]; } off += sz[k]; if (k == keep) continue; o.how = base + fmt(" S%u", ax) + show(sz) + fmt("part %zu", k); ok = agrees(*W, res[k], o, false, op); }
      off = 0; for (size_t k = 0; k < keep; ++k) off += sz[k]; Ten o = m; o.shape[ax] = sz[keep]; o.raw.resize(num(o.shape)); for (int64_t f = 0; f < o.n(); ++f) { V i = idxOf(o.shape, f); i[ax] += off; o.raw[f] = m.raw[flatOf(m.shape, i)]; } check(res[keep], o, fmt(" S%u", ax) + show(sz)); break; }
    case 5: { op = "concat"; if (!rk) break; unsigned ax = r.in(0, rk - 1); int parts = r.in(1, 4), at = r.in(0, parts - 1); std::vector<ElementsAttr> es; std::vector<Ten> ms; int64_t tot = 0; for (int k = 0; k < parts; ++k) { if (k == at || r.chance(1, 6)) { es.push_back(x); ms.push_back(m); } else { V sh = m.shape; sh[ax] = r.in(0, 4); Ten o = rnd(r, t, sh, extreme); es.push_back(make(r, o)); ms.push_back(o); } tot += ms.back().shape[ax]; } Ten o = m; for (auto &q : ms) o.exact &= q.exact; o.shape[ax] = tot; if (num(o.shape) > LIM) break; o.raw.resize(num(o.shape)); for (int64_t f = 0; f < o.n(); ++f) { V i = idxOf(o.shape, f); size_t k = 0; while (i[ax] >= ms[k].shape[ax]) i[ax] -= ms[k++].shape[ax]; o.raw[f] = ms[k].raw[flatOf(ms[k].shape, i)]; } check(b.concat(es, ax), o, fmt(" C%u/%d", ax, parts)); break; }
    case 6: { op = "slice"; V sh, st, sp; for (size_t a = 0; a < rk; ++a) { int64_t d = m.shape[a], step = r.chance(1, 3) ? -r.in(1, 3) : r.in(1, 3), start = d ? r.in(0, d - 1) : 0, mx = !d ? 0 : step > 0 ? (d - 1 - start) / step + 1 : start / -step + 1; int64_t c = r.chance(1, 15) ? 0 : r.chance(1, 2) ? mx : r.in(mx ? 1 : 0, mx); sh.push_back(c); st.push_back(start); sp.push_back(step); } Ten o = m; o.shape = sh; o.raw.resize(num(sh)); for (int64_t f = 0; f < o.n(); ++f) { V i = idxOf(sh, f); for (size_t a = 0; a < rk; ++a) i[a] = st[a] + i[a] * sp[a]; o.raw[f] = m.raw[flatOf(m.shape, i)]; } check(b.slice(x, sh, st, sp), o, " L" + show(sh) + show(st) + show(sp)); break; }
    case 7: { op = "pad"; V pads(2 * rk); for (auto &p : pads) p = r.chance(1, 2) ? 0 : r.in(0, 3); Ten o = m; for (size_t a = 0; a < rk; ++a) o.shape[a] += pads[a] + pads[a + rk]; if (num(o.shape) > LIM) break; uint64_t pv = extreme ? anyValue(r, t) : smallValue(r, t); o.raw.assign(num(o.shape), pv); for (int64_t f = 0; f < m.n(); ++f) { V i = idxOf(m.shape, f); for (size_t a = 0; a < rk; ++a) i[a] += pads[a]; o.raw[flatOf(o.shape, i)] = m.raw[f]; } check(b.pad(x, pads, wide(t, pv)), o, " P" + show(pads)); break; }
    case 8: { op = "gather"; if (!rk) break; unsigned ax = r.in(0, rk - 1); int64_t d = m.shape[ax]; V is = rndShape(r, 2, 12); if (!d) is = {0}; Ten ix; ix.t = typeNo(r.chance(1, 3) ? "i32" : "i64"); ix.shape = is; V vals; for (int64_t k = 0; k < num(is); ++k) { int64_t v = r.in(-d, d - 1); vals.push_back(v); ix.raw.push_back((uint64_t)v & maskOf(ix.t)); } Ten o = m; o.shape.assign(m.shape.begin(), m.shape.begin() + ax); o.shape.insert(o.shape.end(), is.begin(), is.end()); o.shape.insert(o.shape.end(), m.shape.begin() + ax + 1, m.shape.end()); if (num(o.shape) > LIM) break; o.raw.resize(num(o.shape)); for (int64_t f = 0; f < o.n(); ++f) { V i = idxOf(o.shape, f), q(i.begin(), i.begin() + ax), k(i.begin() + ax, i.begin() + ax + is.size()); int64_t v = vals[flatOf(is, k)]; q.push_back(v < 0 ? v + d : v); q.insert(q.end(), i.begin() + ax + is.size(), i.end()); o.raw[f] = m.raw[flatOf(m.shape, q)]; } check(b.gather(x, make(r, ix), ax), o, fmt(" G%u", ax) + show(is) + show(vals)); break; }
    case 9: { op = "scatterND"; if (!rk) break; int k = r.in(1, rk); int64_t cells = 1; for (int a = 0; a < k; ++a) cells *= m.shape[a]; V outer = rndShape(r, 2, std::min<int64_t>(cells, 10)); if (!cells || num(outer) > cells) outer = {0}; std::vector<int64_t> pos; for (int64_t i = 0; i < cells; ++i) pos.push_back(i); r.shuffle(pos); pos.resize(num(outer)); Ten ix; ix.t = typeNo("i64"); ix.shape = outer; ix.shape.push_back(k); V pre(m.shape.begin(), m.shape.begin() + k), vals; for (auto c : pos) { V i = idxOf(pre, c); for (int a = 0; a < k; ++a) { int64_t v = r.chance(1, 4) ? i[a] - pre[a] : i[a]; vals.push_back(v); ix.raw.push_back((uint64_t)v); } } V us = outer; us.insert(us.end(), m.shape.begin() + k, m.shape.end()); Ten up = rnd(r, t, us, extreme); Ten o = m; int64_t sl = num(V(m.shape.begin() + k, m.shape.end())); for (size_t c = 0; c < pos.size(); ++c) for (int64_t j = 0; j < sl; ++j) o.raw[pos[c] * sl + j] = up.raw[c * sl + j]; check(b.scatterND(x, make(r, ix), make(r, up)), o, fmt(" N%d", k) + show(outer) + show(vals)); break; }
    case 10: { op = "reduce"; if (extreme || !m.n() || isB) break; std::vector<unsigned> ax; for (size_t a = 0; a < rk; ++a) if (r.chance(1, 2)) ax.push_back(a); r.shuffle(ax); bool keep = r.chance(1, 2); int f = r.pick(std::vector<int>{0, 2, 3, 4}); Ten o = m; o.exact = ax.empty() && m.exact; if (!ax.empty()) { o.shape.clear(); V ks; for (size_t a = 0; a < rk; ++a) { bool red = std::find(ax.begin(), ax.end(), a) != ax.end(); if (!red) o.shape.push_back(m.shape[a]); else if (keep) o.shape.push_back(1); ks.push_back(red ? 1 : m.shape[a]); } std::vector<double> acc(num(ks)); std::vector<bool> have(acc.size()); for (int64_t p = 0; p < m.n(); ++p) { V i = idxOf(m.shape, p); for (auto a : ax) i[a] = 0; int64_t q = flatOf(ks, i); double v = valueOf(t, m.raw[p]); acc[q] = have[q] ? model2(f, acc[q], v, false) : v; have[q] = true; } o.raw.clear(); bool rep = true; for (double v : acc) { auto p = patternOf(t, v); if (!p || fabs(v) > 1e15) { rep = false; break; } o.raw.push_back(*p); } if (!rep) break; } check(b.reduce(x, ax, keep, combiner(f, et)), o, string(" reduce-") + OPN[f] + show(ax) + (keep ? "k" : "")); M->count(m.n() >= 2000 ? "parallel_reduce" : "reduce"); break; }
    case 11: { op = "matmul"; if (extreme || isB || !rk) break; int64_t K = m.shape[rk - 1]; V batch(m.shape.begin(), m.shape.begin() + (rk == 1 ? 0 : rk - 2)), rb = broadcastable(r, batch); bool vec = r.chance(1, 4); if (vec) rb.clear(); V rs = rb; rs.push_back(K); int64_t N = 1; if (!vec) { N = r.in(1, 4); rs.push_back(N); } Ten y = rnd(r, t, rs, false); ElementsAttr ye = make(r, y); Ten A = m, B = y; ElementsAttr ae = x, be = ye; bool swap = !vec && rk >= 2 && r.chance(1, 3); if (swap) { std::vector<uint64_t> p(rk), q(rs.size()); for (size_t i = 0; i < rk; ++i) p[i] = i; for (size_t i = 0; i < rs.size(); ++i) q[i] = i; std::swap(p[rk - 1], p[rk - 2]); std::swap(q[q.size() - 1], q[q.size() - 2]); B = permuted(m, p); be = b.transpose(x, p); A = permuted(y, q); ae = b.transpose(ye, q); }
      size_t ra = A.shape.size(), rbk = B.shape.size(); V ab(A.shape.begin(), A.shape.begin() + (ra == 1 ? 0 : ra - 2)), bb(B.shape.begin(), B.shape.begin() + (rbk == 1 ? 0 : rbk - 2)); size_t br = std::max(ab.size(), bb.size()); V cb(br); auto dim = [&](const V &s, size_t i) { size_t lead = br - s.size(); return i < lead ? (int64_t)1 : s[i - lead]; }; for (size_t i = 0; i < br; ++i) { int64_t p = dim(ab, i), q = dim(bb, i); cb[i] = p == 1 ? q : p; } int64_t MM = ra == 1 ? 1 : A.shape[ra - 2], NN = rbk == 1 ? 1 : B.shape[rbk - 1]; if (num(cb) * MM * NN > LIM) break; Ten o; o.t = t; o.exact = false; o.shape = cb; if (ra > 1) o.shape.push_back(MM); if (rbk > 1) o.shape.push_back(NN); bool rep = true; for (int64_t c = 0; c < num(cb) && rep; ++c) { V ci = idxOf(cb, c); auto base = [&](const V &s) { int64_t f = 0; for (size_t i = 0; i < s.size(); ++i) { int64_t v = ci[i + br - s.size()]; f = f * s[i] + (s[i] == 1 ? 0 : v); } return f; }; for (int64_t i = 0; i < MM && rep; ++i) for (int64_t j = 0; j < NN && rep; ++j) { double acc = 0; for (int64_t k = 0; k < K; ++k) acc += valueOf(t, A.raw[(base(ab) * MM + i) * K + k]) * valueOf(t, B.raw[(base(bb) * K + k) * NN + j]); auto p = patternOf(t, acc); if (!p || fabs(acc) > 1e15) rep = false; else o.raw.push_back(*p); } } if (!rep) break; check(b.matMul(ae, be), o, " M" + show(A.shape) + show(B.shape)); break; }
    case 12: { op = "range"; if (isB) break; V sh = {r.in(0, 12)}; Ten o; o.t = t; o.shape = sh; o.exact = false; double st = valueOf(t, smallValue(r, t)), de = r.chance(1, 4) ? 0.5 : (double)r.in(-2, 3); if (!isF(t)) de = std::floor(de); if (TYPES[t].kind == 'u' && de < 0) de = -de; bool rep = patternOf(t, de).has_value(); for (int64_t i = 0; i < sh[0] && rep; ++i) { auto p = patternOf(t, st + de * i); if (!p) rep = false; else o.raw.push_back(*p); } if (!rep) break; check(b.range(W->type(sh, t), wide(t, *patternOf(t, st)), wide(t, *patternOf(t, de))), o, fmt(" range %g %g %ld", st, de, (long)sh[0])); break; }
    case 13: { op = "where"; V target = m.shape; if (r.chance(1, 3)) target.insert(target.begin(), r.in(1, 3)); if (num(target) > LIM) break; Ten c = rnd(r, typeNo("i1"), broadcastable(r, target), false, 4), y = rnd(r, t, broadcastable(r, target), extreme, 3); bool left = r.chance(1, 2); Ten L = left ? m : y, R = left ? y : m; auto xc = *expanded(c, target), xl = *expanded(L, target), xr = *expanded(R, target); Ten o = xl; o.exact = L.exact && R.exact; for (int64_t i = 0; i < o.n(); ++i) o.raw[i] = xc.raw[i] ? xl.raw[i] : xr.raw[i]; ElementsAttr ye = make(r, y); check(b.where(make(r, c), left ? x : ye, left ? ye : x, W->type(target, t)), o, " W" + show(c.shape) + show(y.shape)); break; }
    case 14: case 15: { op = "combine"; if (extreme) break; V target = m.shape; if (r.chance(1, 3)) target.insert(target.begin(), r.in(1, 3)); if (num(target) > LIM) break; Ten y = rnd(r, t, broadcastable(r, target), false, 3); ElementsAttr ye = make(r, y); if (r.chance(1, 8)) { y = m; ye = x; } int f = r.in(0, 6), ot = f >= 5 ? typeNo("i1") : t; bool left = r.chance(1, 2); auto xl = *expanded(left ? m : y, target), xr = *expanded(left ? y : m, target); Ten o; o.t = ot; o.shape = target; o.exact = false; bool rep = true; for (int64_t i = 0; i < num(target) && rep; ++i) { auto p = patternOf(ot, model2(f, valueOf(t, xl.raw[i]), valueOf(t, xr.raw[i]), isB)); if (!p) rep = false; else o.raw.push_back(*p); } if (!rep) break; check(b.combine(left ? x : ye, left ? ye : x, W->type(target, ot), combiner(f, et)), o, string(" ") + OPN[f] + show(y.shape)); break; }
    case 16: { op = "transform"; if (extreme || isB) break; int f = r.in(0, 3); double c = (double)r.in(1, 2); auto fun = [&](double v) { return f == 0 ? v + c : f == 1 ? v * 2 : f == 2 ? (v > c ? v : c) : -v; }; Ten o = m; o.exact = false; bool rep = true; for (auto &x : o.raw) { auto p = patternOf(t, fun(valueOf(t, x))); if (!p) { rep = false; break; } x = *p; } if (!rep) break;
      ElementsAttr e = wideZeroDispatchNonBool(et, [&](auto z) { using T = decltype(z); std::function<T(T)> g = [f, c](T v) -> T { T k = (T)c; return f == 0 ? v + k : f == 1 ? v * 2 : f == 2 ? (v > k ? v : k) : (T)-v; }; return b.transform(x, et, widenumWrapped<T, T>(g)); }); check(e, o, fmt(" F%d", f)); M->count(m.n() >= 1000 ? "parallel_transform" : "transform"); break; }
    case 17: case 18: { op = "cast"; int ot = r.in(0, NT - 1); if (r.chance(1, 6)) ot = typeNo("i1"); bool round = r.chance(1, 2), sat = r.chance(1, 3), plain = r.chance(1, 3); if (plain) { round = true; sat = false; } if (extreme && TYPES[ot].kind != 'b') break; Ten o = m; o.t = ot; o.exact = o.exact && ot == t; bool rep = true; for (auto &x : o.raw) { double v = valueOf(t, x); if (TYPES[ot].kind == 'b') { if (ot != t) x = v != 0; continue; } if (isF(t) && !isF(ot)) v = round ? nearbyint(v) : trunc(v); auto p = patternOf(ot, v); if (!p) { rep = false; break; } x = *p; } if (!rep) break; Type to = mlirType(ot, ctx); check(plain ? b.castElementType(x, to) : isF(ot) ? b.castToFPElementType(x, cast<FloatType>(to), sat) : b.castToIntElementType(x, cast<IntegerType>(to), round), o, string(" to ") + TYPES[ot].name + (round ? "" : "t") + (sat ? "s" : "")); break; }
    case 19: { op = "clip"; if (extreme || isB) break; double lo = valueOf(t, smallValue(r, t)), hi = valueOf(t, smallValue(r, t)); if (lo > hi) std::swap(lo, hi); Ten o = m; o.exact = false; for (auto &x : o.raw) x = *patternOf(t, std::min(hi, std::max(lo, valueOf(t, x)))); check(b.clip(x, wide(t, *patternOf(t, lo)), wide(t, *patternOf(t, hi))), o, fmt(" clip %g %g", lo, hi)); break; }
    default: { // questions
      op = "nonzero"; if (r.chance(1, 3)) { Ten o; o.t = typeNo("i64"); V nz; for (int64_t f = 0; f < m.n(); ++f) if (isNaN(t, m.raw[f]) || valueOf(t, m.raw[f]) != 0) nz.push_back(f); o.shape = {(int64_t)rk, (int64_t)nz.size()}; for (size_t a = 0; a < rk; ++a) for (auto f : nz) o.raw.push_back(idxOf(m.shape, f)[a]); if (num(o.shape) > LIM) break; check(b.nonZero(x), o, " Z"); break; }
      op = "equal"; Ten y = m; int kind = r.in(0, 3); if (kind == 0) y = m; else if (kind == 1 && m.n()) y.raw[r.in(0, m.n() - 1)] = extreme ? anyValue(r, t) : smallValue(r, t); else y = rnd(r, t, broadcastable(r, m.shape), extreme, 2); Ten yx = *expanded(y, m.shape); bool want = true; for (int64_t i = 0; i < m.n(); ++i) { bool q = isNaN(t, m.raw[i]) || isNaN(t, yx.raw[i]) ? false : isF(t) ? valueOf(t, m.raw[i]) == valueOf(t, yx.raw[i]) : m.raw[i] == yx.raw[i]; want &= q; } ElementsAttr ye = make(r, y); bool got = r.chance(1, 2) ? ElementsAttrBuilder::equal(x, ye) : ElementsAttrBuilder::equal(ye, x); M->ev(); M->count(want ? "equal" : "different"); if (got != want) M->violate("equal", describe(m) + trace + " vs " + show(y.shape) + valueList(m) + "/ " + valueList(y) + (got ? "said equal" : "said different"));
      uint64_t c = m.n() && r.chance(1, 2) ? m.raw[0] : extreme ? anyValue(r, t) : smallValue(r, t); bool wa = true; for (auto v : m.raw) wa &= isNaN(t, v) || isNaN(t, c) ? false : isF(t) ? valueOf(t, v) == valueOf(t, c) : v == c; if (ElementsAttrBuilder::allEqual(x, wide(t, c)) != wa) M->violate("all-equal", describe(m) + trace + fmt(" vs %g: ", valueOf(t, c)) + valueList(m)); M->count(wa ? "all_equal" : "not_all_equal"); break; } } }
  // earlier constants are unaffected by what was built from them
  for (auto &i : items) if (ok && r.chance(1, 2)) { i.m.how = trace; ok = agrees(*W, i.e, i.m, false, "later"); }
  items.clear();
  OwningOpRef<ModuleOp> none = ModuleOp::create(UnknownLoc::get(ctx)); W->pool->garbageCollectUnreachable(*none, {});
}
static void suite(const char *name, long n, bool threads, bool closed) { M->run(name, n, [=](Rng &r, long k) { static int used = 0; if (!W || used++ % 300 == 0) { delete W; W = new World(threads); closedPool = closed; if (closed) W->pool->close(); } program(r, k); }, 60, 600); delete W; W = nullptr; }
int main(int argc, char **argv) { Mon mon; M = &mon; long n = argc > 1 ? atol(argv[1]) : 2000; suite("active", n, false, false); suite("threads", n / 4, true, false); suite("closed", n / 4, false, true); return mon.finish(); }
