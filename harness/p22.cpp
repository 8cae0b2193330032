// P22: stride algebra against brute-force index arithmetic.
#include "mon.hpp"
#include <algorithm>
#include <functional>
#include <optional>
#include "src/Dialect/ONNX/ElementsAttr/Strides.hpp"
#include "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"
using namespace onnx_mlir; using std::string; using V = std::vector<int64_t>; static Mon *M;
template <class C> static string show(const C &v) { string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }
static int64_t num(const V &s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
static V idx(const V &s, int64_t f) { V r(s.size()); for (int a = (int)s.size() - 1; a >= 0; --a) { r[a] = f % s[a]; f /= s[a]; } return r; }
// a view: shape, strides as the code has them, and the element of the array every index stands for
struct View { V shape, strides; std::vector<int64_t> el; int64_t size; string trace; };
static V shapeOf(Rng &r, int maxRank, int64_t maxN, bool zeros) { V s; int k = r.in(0, maxRank); for (int i = 0; i < k; ++i) { int64_t d = zeros && r.chance(1, 12) ? 0 : r.chance(1, 3) ? 1 : r.chance(1, 6) ? r.in(5, 12) : r.in(2, 4); if (num(s) * d > maxN) d = 1; s.push_back(d); } return s; }
static bool describes(const V &shape, llvm::ArrayRef<int64_t> strides, const V &el) { if (strides.size() != shape.size()) return false; for (size_t f = 0; f < el.size(); ++f) { V i = idx(shape, f); int64_t p = 0; for (size_t a = 0; a < i.size(); ++a) p += i[a] * strides[a]; if (p != el[f]) return false; } return true; }
static bool contract(const V &shape, llvm::ArrayRef<int64_t> st) { for (size_t a = 0; a < shape.size(); ++a) if (shape[a] == 1 && st[a] != 0) return false; return true; }
static void checkDefault(const V &s, const string &w) { auto d = getDefaultStrides(s); V el(num(s)); for (size_t i = 0; i < el.size(); ++i) el[i] = i; if (!describes(s, d, el) || !contract(s, d)) M->violate("row-major", w + show(s) + " " + show(d)); if (!areStridesContiguous(s, d)) M->violate("contiguous", w + show(s)); }
static V rndReshape(Rng &r, const V &s) { int64_t n = num(s); V o; if (n == 0) { o = shapeOf(r, 4, 100, false); o.insert(o.begin() + r.in(0, o.size()), 0); return o; }
  switch (r.in(0, 3)) { case 0: { // merge and split neighbours
    o = s; int k = r.in(1, 4); for (int i = 0; i < k; ++i) { if (o.size() > 1 && r.chance(1, 2)) { size_t a = r.in(0, o.size() - 2); o[a] *= o[a + 1]; o.erase(o.begin() + a + 1); } else if (!o.empty()) { size_t a = r.in(0, o.size() - 1); for (int64_t f : {2, 3, 4, 6}) if (o[a] % f == 0 && r.chance(1, 2)) { o.insert(o.begin() + a, f); o[a + 1] /= f; break; } } } break; }
  case 1: o = s; break;
  default: { int64_t m = n; while (m > 1 && o.size() < 6) { V d; for (int64_t k = 2; k <= m; ++k) if (m % k == 0) d.push_back(k); int64_t k = r.pick(d); o.push_back(k); m /= k; } if (m > 1) o.push_back(m); } }
  int u = r.in(0, 2); for (int i = 0; i < u; ++i) o.insert(o.begin() + r.in(0, o.size()), 1); if (r.chance(1, 4)) o.erase(std::remove(o.begin(), o.end(), 1), o.end()); return o; }
template <class T> static void restride(const View &v, Rng &r) {
  V sh = v.shape, st = v.strides; while (!st.empty() && st[0] == 0 && r.chance(1, 2)) st.erase(st.begin()); // expansion is implied
  T *src = (T *)malloc(v.size * sizeof(T) + !v.size), *dst = (T *)malloc(v.el.size() * sizeof(T) + v.el.empty()); for (int64_t i = 0; i < v.size; ++i) src[i] = (T)(i * 2654435761u + 7); memset((void *)dst, 0xab, v.el.size() * sizeof(T));
  restrideArray<T>(sh, st, llvm::ArrayRef<T>(src, v.size), llvm::MutableArrayRef<T>(dst, v.el.size())); for (size_t i = 0; i < v.el.size(); ++i) if (dst[i] != (T)((uint64_t)v.el[i] * 2654435761u + 7)) { M->violate("restride", v.trace + show(v.shape) + show(st) + fmt(" width %zu position %zu", sizeof(T), i)); break; } free(src); free(dst); M->count("restrided"); }
template <size_t N> static void traverse(const V &shape, const std::vector<View> &vs, const string &w) {
  std::array<llvm::ArrayRef<int64_t>, N> st; for (size_t i = 0; i < N; ++i) st[i] = vs[i].strides; StridesRange<N> range(shape, st); int64_t n = num(shape), k = 0; if ((int64_t)range.size() != n || range.empty() != !n) M->violate("range-size", w);
  auto it = range.begin(); auto end = range.end(); 
  for (; it != end; k % 3 ? (void)++it : (void)it++, ++k) { if (k >= n) { M->violate("range-visits", w); return; } bool bad = it->flattenedIndex != (uint64_t)k; V i = idx(shape, k); for (size_t a = 0; a < i.size(); ++a) bad |= (int64_t)it->index[a] != i[a]; bad |= it->index.size() != shape.size(); for (size_t o = 0; o < N; ++o) bad |= (*it)[o] != vs[o].el[k] || it->at(o) != vs[o].el[k]; if (bad) { M->violate("range-position", w + show(shape) + fmt(" at %ld of %ld", (long)k, (long)n)); return; } M->ev();
    if (k % 5 == 2) { auto c = it; auto old = c++; if (old->flattenedIndex != (uint64_t)k || old != it || c == it || c->flattenedIndex != (uint64_t)k + 1) { M->violate("range-copy", w); return; } } }
  if (k != n) M->violate("range-visits", w + show(shape) + fmt(" %ld of %ld", (long)k, (long)n)); StridesIterator<N> e2((llvm::ArrayRef<int64_t>(shape))); if (it != e2) M->violate("range-end", w); M->count("traversals"); }
static void chain(Rng &r, long) {
  View v; v.shape = shapeOf(r, 5, 400, true); v.size = num(v.shape); auto d = getDefaultStrides(v.shape); v.strides.assign(d.begin(), d.end()); v.el.resize(v.size); for (int64_t i = 0; i < v.size; ++i) v.el[i] = i; v.trace = show(v.shape); checkDefault(v.shape, "");
  int n = r.in(1, 7);
  for (int s = 0; s < n; ++s) {
    View w = v; string op;
    switch (r.in(0, 4)) {
    case 0: { // transpose
      std::vector<uint64_t> p(v.shape.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i; r.shuffle(p); auto sh = transposeDims(v.shape, p), st = transposeDims(v.strides, p); auto back = untransposeDims(sh, p); if (V(back.begin(), back.end()) != v.shape) M->violate("untranspose", show(v.shape) + show(p)); if (sh.size() != p.size()) { M->violate("transpose", v.trace); return; }
      op = " transposed " + show(p); w.shape.clear(); for (auto x : p) w.shape.push_back(v.shape[x]); if (V(sh.begin(), sh.end()) != w.shape) { M->violate("transpose", v.trace + op + show(sh)); return; } w.strides.assign(st.begin(), st.end());
      for (size_t f = 0; f < w.el.size(); ++f) { V i = idx(w.shape, f), o(i.size()); for (size_t a = 0; a < p.size(); ++a) o[p[a]] = i[a]; int64_t g = 0; for (size_t a = 0; a < o.size(); ++a) g = g * v.shape[a] + o[a]; w.el[f] = v.el[g]; } break; }
    case 1: { // expand
      V sh = v.shape; for (auto &x : sh) if (x == 1 && r.chance(1, 2)) x = r.chance(1, 15) ? 0 : r.in(1, 3); int lead = r.in(0, 2); for (int i = 0; i < lead; ++i) sh.insert(sh.begin(), r.in(1, 3)); if (num(sh) > 3000 || sh.size() > 7) continue; auto st = expandStrides(v.strides, sh); op = " expanded " + show(sh); w.shape = sh; w.strides.assign(st.begin(), st.end()); w.el.assign(num(sh), 0);
      for (size_t f = 0; f < w.el.size(); ++f) { V i = idx(sh, f); int64_t g = 0; for (size_t a = 0; a < v.shape.size(); ++a) g = g * v.shape[a] + (v.shape[a] == 1 ? 0 : i[a + lead]); w.el[f] = v.el[g]; } break; }
    case 2: case 3: { // reshape
      if (num(v.shape) == 0 && !areStridesContiguous(v.shape, v.strides)) continue; // callers copy empty tensors
      V sh = rndReshape(r, v.shape); auto st = reshapeStrides(v.shape, v.strides, sh); op = " reshaped " + show(sh); M->count(st ? "reshaped" : "reshape_impossible");
      if (!st) { // claimed impossible: no strides may exist
        V q(sh.size(), 0); for (size_t a = 0; a < sh.size(); ++a) if (sh[a] > 1) { int64_t step = 1; for (size_t b = a + 1; b < sh.size(); ++b) step *= sh[b]; q[a] = v.el[step] - v.el[0]; } if (describes(sh, q, v.el)) M->violate("reshape-possible", v.trace + op + " strides " + show(q)); M->ev(); continue; }
      w.shape = sh; w.strides.assign(st->begin(), st->end()); break; }
    default: { // what contiguous and splat mean
      auto dd = getDefaultStrides(v.shape); if (areStridesContiguous(v.shape, v.strides) != (V(dd.begin(), dd.end()) == v.strides)) M->violate("contiguous", v.trace + show(v.strides)); bool z = true; for (auto x : v.strides) z &= !x; if (areStridesSplat(v.strides) != z) M->violate("splat", v.trace); auto sp = getSplatStrides(v.shape); if (sp.size() != v.shape.size() || !areStridesSplat(sp)) M->violate("splat-strides", v.trace); if (r.chance(1, 10) && v.size) { w.strides.assign(v.shape.size(), 0); std::fill(w.el.begin(), w.el.end(), 0); w.size = 1; op = " splat"; } else continue; } }
    M->ev(); w.trace = v.trace + op; M->sample(w.trace); M->distinct(hashStr(w.trace));
    if (!describes(w.shape, w.strides, w.el)) { M->violate(op.substr(1, 5), w.trace + " gives strides " + show(w.strides)); return; } if (!contract(w.shape, w.strides)) { V st = w.strides; if (op[1] != 'e') M->violate("unit-dimension", w.trace + show(st)); return; }
    v = w; }
  switch (r.in(0, 3)) { case 0: restride<uint8_t>(v, r); break; case 1: restride<uint16_t>(v, r); break; case 2: restride<uint32_t>(v, r); break; default: restride<uint64_t>(v, r); }
  // traversal with further operands over the same shape
  std::vector<View> vs = {v}; for (int k = 0; k < 2; ++k) { View o = v; o.strides.clear(); for (size_t a = 0; a < v.shape.size(); ++a) o.strides.push_back(r.chance(1, 3) ? 0 : r.in(0, 50)); for (size_t f = 0; f < o.el.size(); ++f) { V i = idx(o.shape, f); o.el[f] = 0; for (size_t a = 0; a < i.size(); ++a) o.el[f] += i[a] * o.strides[a]; } vs.push_back(o); } if (r.chance(1, 2)) std::swap(vs[0], vs[1]);
  traverse<1>(v.shape, vs, v.trace); traverse<2>(v.shape, vs, v.trace); traverse<3>(v.shape, vs, v.trace);
  for (int k = 0; k < 20 && num(v.shape) > 0; ++k) { int64_t f = r.in(0, num(v.shape) - 1); auto i = unflattenIndex(v.shape, f); V w = idx(v.shape, f); bool bad = i.size() != w.size(); for (size_t a = 0; !bad && a < w.size(); ++a) bad = (int64_t)i[a] != w[a]; if (bad) M->violate("unflatten", show(v.shape) + fmt(" %ld ", (long)f) + show(i)); else if ((int64_t)getStridesPosition(i, v.strides) != v.el[f]) M->violate("position", v.trace + show(i)); M->ev(); } }
// shapes of huge tensors, without visiting their elements
static void huge(Rng &r, long) { for (int k = 0; k < 50; ++k) { V s; int n = r.in(1, 6); int64_t t = 1; for (int i = 0; i < n; ++i) { int64_t d = r.chance(1, 4) ? 1 : (int64_t)1 << r.in(1, 30); d -= r.in(0, d / 3); if ((__int128)t * d > ((__int128)1 << 62)) d = 1; t *= d; s.push_back(d); } auto st = getDefaultStrides(s); int64_t f = r.next() % t; V w = idx(s, f); auto i = unflattenIndex(s, f); M->ev(); M->distinct(mixh(hashStr(show(s)), f)); M->count("huge"); bool bad = false; for (size_t a = 0; a < w.size(); ++a) bad |= (int64_t)i[a] != w[a]; if (bad) M->violate("unflatten", show(s) + fmt(" %ld ", (long)f) + show(i)); if ((int64_t)getStridesPosition(i, st) != f) M->violate("position", show(s) + fmt(" %ld", (long)f)); if (!areStridesContiguous(s, st)) M->violate("contiguous", show(s)); V flat = {t}; auto rs = reshapeStrides(s, st, flat); if (!rs || (*rs)[0] != (t == 1 ? 0 : 1)) M->violate("resha", show(s)); } }
template <class T> static void buffer(Rng &r, long) { size_t n = r.in(0, 20); std::vector<T> ext(n); for (auto &x : ext) x = (T)r.next(); using B = ArrayBuffer<T>; bool own = r.chance(1, 2); B a = own ? B::make(n, [&](llvm::MutableArrayRef<T> d) { std::copy(ext.begin(), ext.end(), d.begin()); }) : B(llvm::ArrayRef<T>(ext)); B b(std::move(a)); auto c = std::make_unique<B>(std::move(b)); B d(std::move(*c)); c.reset(); auto g = d.get(); M->ev(); M->count("buffers"); if (g.size() != n || !std::equal(g.begin(), g.end(), ext.begin())) M->violate("buffer", fmt("%zu elements", n)); if (!own && n && g.data() != ext.data()) M->violate("buffer-copies", ""); auto ch = castArrayRef<char>(g); if (ch.size() != n * sizeof(T) || (n && memcmp(ch.data(), ext.data(), ch.size()))) M->violate("cast", ""); }
int main(int argc, char **argv) { Mon m; M = &m; long n = atol(argv[1]); m.run("chain", n, chain); m.run("huge", n / 20, huge); m.run("buffer1", n / 8, buffer<uint8_t>); m.run("buffer4", n / 8, buffer<float>); m.run("buffer8", n / 8, buffer<uint64_t>); return m.finish(); }
