// P25: element type tables, the wide number form, numeric casts and type helpers against rules written down from the ONNX standard.
#include "elemgen.hpp"
#include "onnx-mlir/Runtime/OnnxDataType.h"
#include "src/Support/TypeUtilities.hpp"
#include <sstream>
#include <typeinfo>
#include <cfenv>
using i128 = __int128;
// numbers of onnx.TensorProto.DataType in the order of TYPES
static const int ONNXNO[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 16, 17, 18, 19, 20};
template <BType BT> struct CxxOf; 
#define CX(b, t) template <> struct CxxOf<BType::b> { using T = t; };
CX(BOOL, bool) CX(INT8, int8_t) CX(UINT8, uint8_t) CX(INT16, int16_t) CX(UINT16, uint16_t) CX(INT32, int32_t) CX(UINT32, uint32_t) CX(INT64, int64_t) CX(UINT64, uint64_t) CX(DOUBLE, double) CX(FLOAT, float) CX(FLOAT16, onnx_mlir::float_16) CX(BFLOAT16, onnx_mlir::bfloat_16) CX(FLOAT8E4M3FN, onnx_mlir::float_8e4m3fn) CX(FLOAT8E4M3FNUZ, onnx_mlir::float_8e4m3fnuz) CX(FLOAT8E5M2, onnx_mlir::float_8e5m2) CX(FLOAT8E5M2FNUZ, onnx_mlir::float_8e5m2fnuz)

static void tables() {
  auto bad = [&](const char *what, int t, const string &got) { M->violate(string("table:") + what + ":" + TYPES[t].name, got); };
  for (int t = 0; t < NT; ++t) { M->ev(10); const TypeInfo &i = TYPES[t]; BType bt = i.bt; Type ty = mlirType(t, &W->ctx); int k = i.kind;
    if (onnx_mlir::onnxDataTypeOfBType(bt) != ONNXNO[t] || onnx_mlir::btypeOfOnnxDataType(ONNXNO[t]) != bt) bad("onnx-number", t, fmt("%d", onnx_mlir::onnxDataTypeOfBType(bt)));
    if (mlirTypeOfBType(bt, &W->ctx) != ty) bad("mlir-type", t, ""); if (btypeOfMlirType(ty) != bt) bad("of-mlir-type", t, fmt("%d", (int)btypeOfMlirType(ty)));
    if (k == 's') { if (btypeOfMlirType(IntegerType::get(&W->ctx, i.bits, IntegerType::Signed)) != bt) bad("of-signed-mlir-type", t, ""); }
    if (isFloatBType(bt) != (k == 'f')) bad("isFloat", t, ""); if (isIntBType(bt) != (k != 'f')) bad("isInt", t, ""); if (!isIntOrFloatBType(bt)) bad("isIntOrFloat", t, "");
    if (isSignedIntBType(bt) != (k == 's')) bad("isSignedInt", t, ""); if (isUnsignedIntBType(bt) != (k == 'u' || k == 'b')) bad("isUnsignedInt", t, "");
    if ((int)bitwidthOfBType(bt) != i.bits) bad("bitwidth", t, fmt("%u", bitwidthOfBType(bt))); if ((int)bytewidthOfBType(bt) != bytesOf(t)) bad("bytewidth", t, fmt("%u", bytewidthOfBType(bt)));
    if (wideBTypeOfBType(bt) != (k == 'f' ? BType::DOUBLE : k == 's' ? BType::INT64 : BType::UINT64)) bad("wide", t, ""); if ((int)getIntOrFloatByteWidth(ty) != bytesOf(t)) bad("byte-width", t, "");
    dispatchByBType(bt, [&](auto b) { using T = typename CxxOf<b>::T; if (TYPES[t].bt != b) bad("dispatch", t, ""); if (!std::is_same_v<T, CppType<b>>) bad("cpp-type", t, typeid(CppType<b>).name()); if (onnx_mlir::toBType<T> != b || onnx_mlir::toBType<const T &> != b) bad("of-cpp-type", t, ""); if (toMlirType<T>(&W->ctx) != ty) bad("mlir-of-cpp", t, ""); if ((int)sizeof(T) != bytesOf(t)) bad("sizeof", t, ""); });
    if (OM_DATA_TYPE_SIZE[ONNXNO[t]] != bytesOf(t)) bad("runtime-size", t, fmt("%d", OM_DATA_TYPE_SIZE[ONNXNO[t]])); }
  struct N { const char *n; int v; }; static const N nat[] = {{typeid(bool).name(), 9}, {typeid(char).name(), 3}, {typeid(int8_t).name(), 3}, {typeid(uint8_t).name(), 2}, {typeid(int16_t).name(), 5}, {typeid(uint16_t).name(), 4}, {typeid(int32_t).name(), 6}, {typeid(uint32_t).name(), 12}, {typeid(int64_t).name(), 7}, {typeid(uint64_t).name(), 13}, {typeid(float).name(), 1}, {typeid(double).name(), 11}, {typeid(const char *).name(), 8}, {typeid(_Complex float).name(), 14}, {typeid(_Complex double).name(), 15}};
  for (auto &x : nat) { M->ev(); auto it = OM_DATA_TYPE_CPP_TO_ONNX.find(x.n); if (it == OM_DATA_TYPE_CPP_TO_ONNX.end() || (int)it->second != x.v) M->violate(string("table:cpp-name:") + x.n, "runtime map of C++ type names"); }
}
static void rows() {
#define OM_TYPE_METADATA_DEF(E, V, S, D, ML, NP) printf("ROW %s|%d|%d|%s|%s|%s\n", #E, (int)V, (int)(S), D, ML, NP);
#include "onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"
#undef OM_TYPE_METADATA_DEF
  for (int i = 0; i < (int)ONNX_TYPE_LAST + 1; ++i) printf("NAME %d|%d|%s\n", i, OM_DATA_TYPE_SIZE[i], OM_DATA_TYPE_NAME[i]);
}
// ---- the wide form ----
static i128 intOf(int t, uint64_t raw) { const TypeInfo &i = TYPES[t]; if (i.kind == 's') { int sh = 64 - i.bits; return (int64_t)(raw << sh) >> sh; } return raw; }
static void widePattern(int t, uint64_t p) {
  const TypeInfo &i = TYPES[t]; M->ev(); dispatchByBType(i.bt, [&](auto bt) { using T = CppType<bt>; T x; memcpy((void *)&x, &p, sizeof x); WideNum n = WideNum::widen<bt>(x); bool nan = isNaN(t, p); string what = string(":") + i.name; auto show = [&] { return fmt("pattern %lx widens to %lx", (long)p, (long)n.u64); };
    WideNum want = wide(t, p); if (nan ? !(n.dbl != n.dbl) : n.u64 != want.u64) M->violate("widen" + what, show());
    uint64_t back = narrowed(t, n); if (nan ? !isNaN(t, back) : back != p) M->violate("narrow" + what, show() + fmt(" and narrows to %lx", (long)back));
    if (isF(t)) { auto a = n.toAPFloat(i.bt); if (nan ? !a.isNaN() : a.bitcastToAPInt().getZExtValue() != p || &a.getSemantics() != &cast<FloatType>(mlirType(t, &W->ctx)).getFloatSemantics()) M->violate("toAPFloat" + what, show()); WideNum q = WideNum::fromAPFloat(a); if (nan ? !(q.dbl != q.dbl) : q.u64 != want.u64) M->violate("fromAPFloat" + what, show());
      if constexpr (onnx_mlir::isSmallFPType<T>) { if (x.isNaN() != nan) M->violate("isNaN" + what, show()); if ((x == x) == nan) M->violate("equal" + what, show()); if (!nan && (double)x.toFloat() != want.dbl) M->violate("toFloat" + what, show()); if (T::bitcastFromUInt(x.bitcastToUInt()).bitcastToUInt() != p) M->violate("bits" + what, show()); T m = T::fromFloat(T::max); if (m.toFloat() != T::max) M->violate("max" + what, ""); if (!nan && !std::isinf(want.dbl) && want.dbl > T::max) M->violate("max" + what, show()); } }
    else { auto a = n.toAPInt(i.bt); if (a.getBitWidth() != (unsigned)i.bits || a.getZExtValue() != (i.kind == 'b' ? p : p & maskOf(t))) M->violate("toAPInt" + what, show()); WideNum q = WideNum::fromAPInt(a, i.kind == 's'); if (q.u64 != want.u64) M->violate("fromAPInt" + what, show());
      if (n.to<int64_t>(i.bt) != (int64_t)intOf(t, p) || WideNum::from<int64_t>(i.bt, (int64_t)intOf(t, p)).u64 != want.u64) M->violate("to/from" + what, show()); }
    if (!nan && (isF(t) || fabs(valueOf(t, p)) < 0x1p53)) { double d = n.template to<double>(i.bt); if (d != valueOf(t, p)) M->violate("to-double" + what, show()); if (WideNum::from<double>(i.bt, d).u64 != want.u64) M->violate("from-double" + what, show()); } });
}
static uint64_t edge(Rng &r, int t) { const TypeInfo &i = TYPES[t]; if (i.kind == 'b') return r.chance(1, 2);
  if (!isF(t)) { uint64_t base; switch (r.in(0, 5)) { case 0: base = 0; break; case 1: base = 1ull << r.in(0, i.bits - 1); break; case 2: base = maskOf(t); break; case 3: base = maskOf(t) >> 1; break; case 4: { double d = ldexp(1 + r.in(0, 4095) / 4096.0, r.in(0, 62)); base = (uint64_t)d; break; } default: return r.next() & maskOf(t); } base += (uint64_t)r.in(-3, 3); if (r.chance(1, 3)) base = -base; return base & maskOf(t); }
  // around the limits of the other types, halves, ties
  if (r.chance(1, 3)) return r.next() & maskOf(t); if (r.chance(1, 8)) return (maskOf(t) >> r.in(0, i.mb + 2)) & maskOf(t); if (r.chance(1, 8)) return (((1ull << i.eb) - 1) << i.mb | (r.chance(1, 2) ? 0 : r.next() & ((1ull << i.mb) - 1))) | (uint64_t)r.in(0, 1) << (i.bits - 1);
  static const double lim[] = {0, 0.5, 1, 1.5, 2.5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 0x1p53, 0x1p63, 0x1p64, 448, 464, 240, 248, 57344, 61440, 65504, 65520, 0x1p127, 0x1.ffp127, 0x1.fep127, 0x1.fffffep127, 0x1p-149, 0x1p-150, 0x1p-133, 0x1p-24, 0x1p-25, 0x1p-9, 0x1p-10, 0x1p-16, 0x1p-17};
  double d = lim[r.in(0, sizeof lim / sizeof *lim - 1)]; d += r.in(-2, 2) * 0.5; if (r.chance(1, 4)) d = nextafter(d, r.chance(1, 2) ? 1e300 : -1e300); if (r.chance(1, 6)) d = (float)nextafterf((float)d, r.chance(1, 2) ? 1e30f : -1e30f); if (r.chance(1, 2)) d = -d;
  if (auto p = patternOf(t, d)) return *p; if (i.bits == 64) { uint64_t u; memcpy(&u, &d, 8); return u; } if (i.bits == 32) return fpref::bits((float)d); return r.next() & maskOf(t);
}

// ---- casts ----
static const fpref::F8 &f8(int t) { static std::map<int, fpref::F8 *> m; auto &p = m[t]; const TypeInfo &i = TYPES[t]; if (!p) p = new fpref::F8(i.name, i.eb, i.mb, i.bias, i.ieee, i.fnuz); return *p; }
static uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
// nearest value of a small type, ties to even; -1: NaN. Works on doubles without going through float.
static int64_t nearest(int t, double v) { const TypeInfo &i = TYPES[t]; if (v != v) return -1; if (i.bits == 64) return (int64_t)bitsOf(v); if (i.bits == 32) { float f = (float)v; return fpref::bits(f); }
  if (i.bits == 8) { // decided on exact doubles
    auto &f = f8(t); bool neg = std::signbit(v); double a = fabs(v), top = f.pos.back(), next = top + (top - f.pos[f.pos.size() - 2]); if (std::isinf(v)) return f.encode((float)v); size_t lo = std::upper_bound(f.pos.begin(), f.pos.end(), a) - f.pos.begin() - 1; double l = f.pos[lo], h = lo + 1 < f.pos.size() ? f.pos[lo + 1] : next; size_t k = a - l < h - a ? lo : a - l > h - a ? lo + 1 : (lo & 1) ? lo + 1 : lo; if (a >= next) k = f.pos.size(); if (k == f.pos.size()) return f.ieee ? (neg ? 0x80 : 0) | (int)k : -1; if (!k && f.fnuz) return 0; return (neg ? 0x80 : 0) | (int)k; }
  bool neg = std::signbit(v); double a = fabs(v); int lo = 1 - i.bias, e = lo; if (a >= ldexp(1, lo)) { frexp(a, &e); --e; } if (std::isinf(v) || e > i.bias) return ((int64_t)neg << 15) | ((1ll << i.eb) - 1) << i.mb; // both 16-bit types have infinities
  double k = a / ldexp(1, e - i.mb); if (a < 0x1p-400) k = 0; double fl = std::floor(k), rest = k - fl; if (rest > 0.5 || (rest == 0.5 && fmod(fl, 2) == 1)) fl += 1; int64_t p = (a >= ldexp(1, lo) ? ((int64_t)(e + i.bias - 1) << i.mb) + (int64_t)fl : (int64_t)fl); int64_t inf = ((1ll << i.eb) - 1) << i.mb; if (p > inf) p = inf; return ((int64_t)neg << 15) | p; }
static double maxOf(int t) { if (TYPES[t].bits == 64) return std::numeric_limits<double>::max(); if (TYPES[t].bits == 32) return std::numeric_limits<float>::max(); static double c[NT]; if (!c[t]) for (uint64_t p = 0; p < (1ull << TYPES[t].bits); ++p) { double x = valueOf(t, p); if (x == x && !std::isinf(x) && x > c[t]) c[t] = x; } return c[t]; }
struct Accept { std::vector<int64_t> p; bool nan = false; }; // acceptable patterns
static void add(Accept &a, int64_t p) { if (p == -1) a.nan = true; else a.p.push_back(p); }
static Accept expected(int from, uint64_t raw, int to, bool round, bool sat, bool &exact) {
  Accept a; exact = false; const TypeInfo &o = TYPES[to]; bool ff = isF(from); double d = valueOf(from, raw); i128 n = ff ? 0 : intOf(from, raw);
  if (o.kind == 'b') { add(a, ff ? !(d == 0) : n != 0); exact = true; return a; }
  if (o.kind != 'f') { if (!ff) { uint64_t p = (uint64_t)n & maskOf(to); exact = intOf(to, p) == n; a.p.push_back((int64_t)p); return a; }
    i128 lo = o.kind == 's' ? -((i128)1 << (o.bits - 1)) : 0, hi = o.kind == 's' ? ((i128)1 << (o.bits - 1)) - 1 : ((i128)1 << o.bits) - 1; i128 v; if (d != d) v = 0; else if (std::isinf(d) || fabs(d) > 0x1p70) v = d < 0 ? lo : hi; else { double q = std::floor(d), rest = d - q; if (round) { if (rest > 0.5 || (rest == 0.5 && fmod(q, 2) != 0)) q += 1; } else if (d < 0 && rest > 0) q += 1; v = (i128)q; exact = rest == 0 && v >= lo && v <= hi; if (v < lo) v = lo; if (v > hi) v = hi; } a.p.push_back((int64_t)((uint64_t)v & maskOf(to))); return a; }
  // to floating point: the nearest value, also when the result is reached through double or float (see DESIGN.md)
  double mx = maxOf(to); double v = ff ? d : n < 0 ? (double)(int64_t)n : (double)(uint64_t)n; auto clip = [&](double x) { return !sat ? x : x >= mx ? mx : x <= -mx ? -mx : x; };
  add(a, nearest(to, clip(v))); if (o.bits < 32) add(a, nearest(to, (double)(float)clip(v)));
  if (!ff) { long double ld = (long double)n; if (o.bits == 32 && !sat) { float f = (float)ld; a.p.push_back(fpref::bits(f)); } if (o.bits < 32 && !sat) add(a, nearest(to, (double)(float)ld)); exact = (long double)v == ld; } else exact = true;
  if (exact) { auto p = patternOf(to, v == 0 ? 0 : v); exact = p.has_value() || (v != v) ; if (v == 0) exact = true; }
  return a; }
static bool accepted(int to, const Accept &a, uint64_t got) { if (a.nan && isNaN(to, got)) return true; for (auto p : a.p) if ((uint64_t)p == got) return true; return false; }
static void castAll(int from, const std::vector<uint64_t> &raw, int to, int mode, ElementsAttr e) { // mode: 0 castElementType, 1 castToInt truncating, 2 castToInt rounding, 3 castToFP, 4 castToFP saturating
  ElementsAttrBuilder &b = *W->b; Type ty = mlirType(to, &W->ctx); bool round = mode != 1, sat = mode == 4; ElementsAttr res = mode == 0 ? b.castElementType(e, ty) : mode <= 2 ? b.castToIntElementType(e, cast<IntegerType>(ty), round) : b.castToFPElementType(e, cast<FloatType>(ty), sat);
  string key = string("cast:") + TYPES[from].name + ">" + TYPES[to].name + (mode == 1 ? ":truncate" : sat ? ":saturate" : ""); if (res.getElementType() != ty || res.getShapedType().getShape() != e.getShapedType().getShape()) { M->violate(key + ":type", ""); return; }
  auto got = getElementsWideNums(res); auto rb = dyn_cast<DisposableElementsAttr>(res); std::optional<onnx_mlir::ArrayBuffer<char>> bytes; if (rb) bytes.emplace(rb.getRawBytes()); size_t k = 0; std::vector<uint64_t> viaValues; if (isF(to)) { for (APFloat f : res.getValues<APFloat>()) viaValues.push_back(f.bitcastToAPInt().getZExtValue()); } else for (APInt f : res.getValues<APInt>()) viaValues.push_back(f.getZExtValue());
  if (viaValues.size() != raw.size()) { M->violate(key + ":count", ""); return; }
  for (size_t i = 0; i < raw.size(); ++i) { bool exact; Accept a; M->ev(); if (from == to) { a.p.push_back((int64_t)raw[i]); exact = true; } else a = expected(from, raw[i], to, round, sat, exact); if (isF(from) && isNaN(from, raw[i]) && isF(to)) a.nan = true;
    M->count(exact ? "exact" : "inexact"); if (exact) ++k; uint64_t x[3] = {narrowed(to, got.get()[i]), viaValues[i], 0}; int nx = 2; if (bytes) { int w = bytesOf(to); memcpy(&x[2], bytes->get().data() + i * w, w); nx = 3; }
    for (int q = 0; q < nx; ++q) if (!accepted(to, a, x[q] & maskOf(to))) { string s; for (auto p : a.p) s += fmt(" %lx(%g)", (long)p, valueOf(to, (uint64_t)p)); M->violate(key, fmt("%lx (%g) becomes %lx (%g) read through %s, expected%s%s", (long)raw[i], valueOf(from, raw[i]), (long)x[q], valueOf(to, x[q] & maskOf(to)), q == 0 ? "wide numbers" : q == 1 ? "values" : "bytes", s.c_str(), a.nan ? " NaN" : "")); return; } }
  M->distinct(hashStr(key)); }
static int modeFor(Rng &r, int to) { if (r.chance(1, 4)) return 0; return isF(to) ? (int)r.in(3, 4) : (int)r.in(1, 2); }
static void castCase(Rng &r, long) { int from = r.in(0, NT - 1), to = r.in(0, NT - 1); Ten m; m.t = from; int n = r.chance(1, 10) ? r.in(0, 1) : r.in(2, 120); m.shape = {n}; bool splat = n && r.chance(1, 12); for (int i = 0; i < n; ++i) m.raw.push_back(splat && i ? m.raw[0] : edge(r, from)); ElementsAttr e = make(r, m); for (int k = 0; k < 3; ++k, to = r.in(0, NT - 1)) { castAll(from, m.raw, to, modeFor(r, to), e); M->count(string("from_") + TYPES[from].name); }
  for (int i = 0; i < n && i < 8; ++i) widePattern(from, m.raw[i]); M->sample(string(TYPES[from].name) + " to " + TYPES[to].name + ": " + valueList(m)); }
// every 8-bit pattern and many 16-bit ones, to every type and in every mode
static void allCasts(int f, int t) { if (TYPES[f].bits > 16) return; Ten m; m.t = f; for (uint64_t p = 0; p < (1ull << TYPES[f].bits); ++p) m.raw.push_back(p); m.shape = {m.n()}; ElementsAttr e = W->b->toDisposableElementsAttr(denseOf(m, false)); for (int mode : isF(t) ? std::vector<int>{0, 3, 4} : std::vector<int>{0, 1, 2}) castAll(f, m.raw, t, mode, e); M->count("all_casts"); }

// ---- helpers on MLIR types ----
static void typeCase(Rng &r) { M->ev(); int t = r.in(0, NT - 1); Type et = mlirType(t, &W->ctx); V s; int rk = r.in(0, 6); bool dyn = false; int64_t n = 1; for (int i = 0; i < rk; ++i) { int64_t d = r.chance(1, 6) ? ShapedType::kDynamic : r.in(0, 300); dyn |= ShapedType::isDynamic(d); s.push_back(d); if (!dyn) n *= d; }
  auto bad = [&](const char *w, const string &g) { M->violate(string("type:") + w, TYPES[t].name + show(s) + " " + g); };
  Attribute enc; if (r.chance(1, 4)) enc = StringAttr::get(&W->ctx, r.chance(1, 2) ? "a" : "b"); ShapedType ty = r.chance(1, 3) ? (ShapedType)MemRefType::get(s, et) : (ShapedType)RankedTensorType::get(s, et, enc);
  if (onnx_mlir::getElementType(ty) != et || onnx_mlir::getElementType(et) != et) bad("element", ""); if (!isRankedShapedType(ty) || isRankedShapedType(et) || isRankedShapedType(UnrankedTensorType::get(et))) bad("ranked", "");
  if (onnx_mlir::hasStaticShape(ty) == dyn || onnx_mlir::hasStaticShape(et) || onnx_mlir::hasStaticShape(UnrankedTensorType::get(et))) bad("static", ""); if (onnx_mlir::getRank(ty) != rk || onnx_mlir::getShape(ty) != ArrayRef<int64_t>(s)) bad("shape", "");
  for (int i = -rk; i < rk; ++i) if (onnx_mlir::getShape(ty, i) != s[i < 0 ? i + rk : i]) bad("dimension", fmt("%d", i)); if (!rk && (onnx_mlir::getShape(ty, 0) != 1 || onnx_mlir::getShape(ty, -1) != 1)) bad("scalar", "");
  if (getEltSizeInBytes(ty) != bytesOf(t) || getEltSizeInBytes(et) != bytesOf(t)) bad("element-size", ""); if (!dyn && (getNumberOfElements(ty) != n || getSizeInBytes(ty) != n * bytesOf(t))) bad("size", fmt("%ld", (long)getSizeInBytes(ty)));
  if (r.chance(1, 4)) { auto v = VectorType::get({r.in(1, 9)}, et); auto mv = MemRefType::get(s, v); int64_t w = (v.getNumElements() * TYPES[t].bits + 7) / 8; if (getEltSizeInBytes(mv) != w || (!dyn && getSizeInBytes(mv) != n * w)) bad("vector-element", fmt("%ld", (long)getEltSizeInBytes(mv))); }
  auto t2 = RankedTensorType::get(s, et, r.chance(1, 2) ? enc : Attribute(StringAttr::get(&W->ctx, "b"))); bool ranked = isa<RankedTensorType>(ty); if (sameEncodingAttr(ty, t2) != (ranked && cast<RankedTensorType>(t2).getEncoding() == enc)) bad("encoding", ""); M->distinct(hashStr(show(s) + TYPES[t].name)); }
// the shape information strings of the command line
static void shapeInfo(Rng &r) { M->ev(); std::map<int64_t, V> want; string s; int n = r.in(0, 5); for (int k = 0; k < n; ++k) { int64_t a, b; string id; switch (r.in(0, 4)) { case 0: a = b = -1; id = "-1"; break; case 1: case 2: a = r.in(0, 6); b = r.chance(1, 5) ? a : a + r.in(0, 5); id = fmt("%ld-%ld", (long)a, (long)b); break; default: a = b = r.in(0, 8); id = fmt("%ld", (long)a); } V dims; string ds; for (int i = r.in(1, 5); i--;) { int64_t d = r.chance(1, 3) ? -1 : r.chance(1, 8) ? r.in(1, 2147483647) : r.in(1, 1024); dims.push_back(d == -1 ? ShapedType::kDynamic : d); ds += (ds.empty() ? "" : "x") + std::to_string(d); } s += (k ? "," : "") + id + ":" + ds; for (int64_t i = a; i <= b; ++i) want.insert({i, dims}); }
  auto got = parseShapeInformation(s); if (got != want) { string g; for (auto &p : got) g += fmt("%ld:", (long)p.first) + show(p.second); M->violate("shape-information", "\"" + s + "\" gives " + g); } M->count("shape_strings"); M->distinct(hashStr(s)); }
static void fresh(Rng &r, long k, bool threads) { static int used = 0; if (!W || used++ % 300 == 0) { delete W; W = new World(threads); } castCase(r, k); if (k % 4 == 0) { typeCase(r); shapeInfo(r); } OwningOpRef<ModuleOp> none = ModuleOp::create(UnknownLoc::get(&W->ctx)); W->pool->garbageCollectUnreachable(*none, {}); }
int main(int argc, char **argv) { Mon mon; M = &mon; long n = argc > 1 ? atol(argv[1]) : 2000; if (argc > 2) { W = new World(false); rows(); return 0; }
  M->run("tables", 1, [](Rng &, long) { World w(false); W = &w; tables(); W = nullptr; });
  M->run("patterns", NT, [](Rng &, long t) { if (TYPES[t].bits > 16) return; World w(false); W = &w; for (uint64_t p = 0; p < (1ull << TYPES[t].bits); ++p) widePattern(t, p); M->count(string("all_patterns_of_") + TYPES[t].name); W = nullptr; });
  M->run("all-casts", NT * NT, [](Rng &, long k) { World w(false); W = &w; allCasts(k / NT, k % NT); W = nullptr; }, 120, 8);
  M->run("casts", n, [](Rng &r, long k) { fresh(r, k, k & 1); }, 60, 600); return mon.finish(); }
