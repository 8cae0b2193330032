// Dense reference tensors and a small "onnx" dialect hosting the real constant pool, shared by P23-P25.
#pragma once
#include "mon.hpp"
#include "fpref.hpp"
#include <algorithm>
#include <optional>
#include "src/Dialect/ONNX/ElementsAttr/BType.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/MLIRContext.h"
#include "llvm/Support/raw_ostream.h"

using onnx_mlir::BType; using onnx_mlir::WideNum; using std::string; using V = std::vector<int64_t>;
static Mon *M;
template <class C> static string show(const C &v) { string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }

// ---- element types, written down from the ONNX standard ----
struct TypeInfo { BType bt; const char *name; int bits; char kind; int eb, mb, bias; bool ieee, fnuz; }; // kind: b u s f
static const TypeInfo TYPES[] = {{BType::FLOAT, "f32", 32, 'f', 8, 23, 127, 1, 0}, {BType::UINT8, "ui8", 8, 'u', 0, 0, 0, 0, 0}, {BType::INT8, "i8", 8, 's', 0, 0, 0, 0, 0}, {BType::UINT16, "ui16", 16, 'u', 0, 0, 0, 0, 0}, {BType::INT16, "i16", 16, 's', 0, 0, 0, 0, 0}, {BType::INT32, "i32", 32, 's', 0, 0, 0, 0, 0}, {BType::INT64, "i64", 64, 's', 0, 0, 0, 0, 0}, {BType::BOOL, "i1", 1, 'b', 0, 0, 0, 0, 0}, {BType::FLOAT16, "f16", 16, 'f', 5, 10, 15, 1, 0}, {BType::DOUBLE, "f64", 64, 'f', 11, 52, 1023, 1, 0}, {BType::UINT32, "ui32", 32, 'u', 0, 0, 0, 0, 0}, {BType::UINT64, "ui64", 64, 'u', 0, 0, 0, 0, 0}, {BType::BFLOAT16, "bf16", 16, 'f', 8, 7, 127, 1, 0}, {BType::FLOAT8E4M3FN, "f8E4M3FN", 8, 'f', 4, 3, 7, 0, 0}, {BType::FLOAT8E4M3FNUZ, "f8E4M3FNUZ", 8, 'f', 4, 3, 8, 0, 1}, {BType::FLOAT8E5M2, "f8E5M2", 8, 'f', 5, 2, 15, 1, 0}, {BType::FLOAT8E5M2FNUZ, "f8E5M2FNUZ", 8, 'f', 5, 2, 16, 0, 1}};
constexpr int NT = 17;
static int bytesOf(int t) { return std::max(1, TYPES[t].bits / 8); }
static int typeNo(const char *n) { for (int t = 0; t < NT; ++t) if (!strcmp(TYPES[t].name, n)) return t; abort(); }
static bool isF(int t) { return TYPES[t].kind == 'f'; }
static uint64_t maskOf(int t) { int b = bytesOf(t) * 8; return b == 64 ? ~0ull : (1ull << b) - 1; }
static mlir::Type mlirType(int t, mlir::MLIRContext *c) { mlir::Builder b(c); const TypeInfo &i = TYPES[t]; switch (i.kind) { case 'b': return b.getI1Type(); case 's': return mlir::IntegerType::get(c, i.bits); case 'u': return mlir::IntegerType::get(c, i.bits, mlir::IntegerType::Unsigned); }
  switch (i.bt) { case BType::FLOAT: return b.getF32Type(); case BType::DOUBLE: return b.getF64Type(); case BType::FLOAT16: return b.getF16Type(); case BType::BFLOAT16: return b.getBF16Type(); case BType::FLOAT8E4M3FN: return mlir::Float8E4M3FNType::get(c); case BType::FLOAT8E4M3FNUZ: return mlir::Float8E4M3FNUZType::get(c); case BType::FLOAT8E5M2: return mlir::Float8E5M2Type::get(c); default: return mlir::Float8E5M2FNUZType::get(c); } }
// value of a stored pattern; integers beyond 2^53 are only ever compared as patterns
static double valueOf(int t, uint64_t raw) { const TypeInfo &i = TYPES[t]; switch (i.kind) { case 'b': return raw != 0; case 'u': return (double)raw; case 's': { int sh = 64 - i.bits; return (double)((int64_t)(raw << sh) >> sh); } }
  if (i.bits == 64) { double d; memcpy(&d, &raw, 8); return d; } if (i.bits == 32) return fpref::flt((uint32_t)raw); return fpref::decode((uint32_t)raw, i.eb, i.mb, i.bias, i.ieee, i.fnuz); }
static bool isNaN(int t, uint64_t raw) { if (!isF(t)) return false; double d = valueOf(t, raw); return d != d; }
// pattern of a value, if the type has exactly this value
static std::optional<uint64_t> patternOf(int t, double v) { const TypeInfo &i = TYPES[t]; if (v == 0) return 0;
  switch (i.kind) { case 'b': if (v == 1) return 1; return {}; case 'u': if (v < 0 || v != std::floor(v) || v > std::min(ldexp(1, i.bits) - 1, ldexp(1, 53))) return {}; return (uint64_t)v; case 's': if (v != std::floor(v) || v < std::max(-ldexp(1, i.bits - 1), -ldexp(1, 53)) || v > std::min(ldexp(1, i.bits - 1) - 1, ldexp(1, 53))) return {}; return (uint64_t)(int64_t)v & maskOf(t); }
  if (i.bits == 64) { uint64_t u; memcpy(&u, &v, 8); return u; } if (i.bits == 32) { if ((double)(float)v != v) return {}; return fpref::bits((float)v); }
  if (v != v || std::isinf(v)) return {}; bool neg = v < 0; double a = fabs(v); int e; frexp(a, &e); --e; // a = m * 2^e with m in [1,2)
  int lo = 1 - i.bias; uint32_t p; if (e < lo) { double k = a / ldexp(1, lo - i.mb); if (k != std::floor(k)) return {}; p = (uint32_t)k; } else { double k = a / ldexp(1, e - i.mb); if (k != std::floor(k)) return {}; int be = e + i.bias; if (be >= (1 << i.eb)) return {}; p = ((uint32_t)be << i.mb) + ((uint32_t)k - (1u << i.mb)); }
  p |= (uint32_t)neg << (i.bits - 1); if (valueOf(t, p) != v) return {}; return p; }

// a tensor as ONNX sees it
struct Ten { int t = 0; V shape; std::vector<uint64_t> raw; bool exact = true; string how; // exact: the sign of zero is known
  int64_t n() const { return (int64_t)raw.size(); } };
static int64_t num(const V &s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
static V idxOf(const V &s, int64_t f) { V r(s.size()); for (int a = (int)s.size() - 1; a >= 0; --a) { r[a] = f % s[a]; f /= s[a]; } return r; }
static int64_t flatOf(const V &s, const V &i) { int64_t f = 0; for (size_t a = 0; a < s.size(); ++a) f = f * s[a] + i[a]; return f; }
static bool same(const Ten &m, uint64_t want, uint64_t got) { int t = m.t; got &= maskOf(t); if (want == got) return true; if (!isF(t)) return false; if (isNaN(t, want)) return isNaN(t, got); return !m.exact && valueOf(t, want) == valueOf(t, got); }
static string describe(const Ten &m) { string s = string(TYPES[m.t].name) + show(m.shape) + " " + m.how; return s; }

#include "onnxlike.hpp"
MLIR_DEFINE_EXPLICIT_TYPE_ID(OnnxLike)
struct World { mlir::MLIRContext ctx; onnx_mlir::DisposablePool *pool; onnx_mlir::ElementsAttrBuilder *b; World(bool threads) : ctx(threads ? mlir::MLIRContext::Threading::ENABLED : mlir::MLIRContext::Threading::DISABLED) { ctx.getOrLoadDialect<OnnxLike>(); pool = onnx_mlir::DisposablePool::get<OnnxLike>(&ctx); b = new onnx_mlir::ElementsAttrBuilder(*pool); } ~World() { delete b; }
  mlir::RankedTensorType type(const Ten &m) { return mlir::RankedTensorType::get(m.shape, mlirType(m.t, &ctx)); } 
  mlir::RankedTensorType type(const V &s, int t) { return mlir::RankedTensorType::get(s, mlirType(t, &ctx)); } };
static std::vector<char> bytes(const Ten &m) { int w = bytesOf(m.t); std::vector<char> o(m.n() * w); for (int64_t i = 0; i < m.n(); ++i) memcpy(o.data() + i * w, &m.raw[i], w); return o; }
static WideNum wide(int t, uint64_t raw) { WideNum n; const TypeInfo &i = TYPES[t]; if (i.kind == 'f') n.dbl = valueOf(t, raw); else if (i.kind == 's') { int sh = 64 - i.bits; n.i64 = (int64_t)(raw << sh) >> sh; } else n.u64 = raw; return n; }
static uint64_t narrowed(int t, WideNum n) { return onnx_mlir::dispatchByBType(TYPES[t].bt, [&](auto bt) -> uint64_t { auto x = n.narrow<bt>(); uint64_t r = 0; memcpy(&r, &x, sizeof x); return r; }); }

template <class T> constexpr bool listed = llvm::is_one_of<T, bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, onnx_mlir::float_16, onnx_mlir::bfloat_16, float, double>::value;
// Every way of reading the constant gives the model's elements.
static bool agrees(World &w, mlir::ElementsAttr e, const Ten &m, bool text, const char *op) {
  using namespace mlir; using namespace onnx_mlir; auto bad = [&](const char *path, const string &more) { M->violate(string(op) + ":" + path, describe(m) + " " + more); return false; };
  if (!e) return bad("missing", ""); auto ty = w.type(m); if (e.getShapedType() != ty) { string s; llvm::raw_string_ostream o(s); o << e.getShapedType(); return bad("type", s); }
  if (e.getNumElements() != m.n()) return bad("count", std::to_string(e.getNumElements())); int64_t n = m.n(); M->ev();
  auto cmp = [&](const char *path, int64_t i, uint64_t got) { if (i >= n) return bad(path, "more elements"); if (!same(m, m.raw[i], got)) return bad(path, fmt("element %ld is %lx, not %lx (%g, %g)", (long)i, (long)(got & maskOf(m.t)), (long)m.raw[i], valueOf(m.t, got & maskOf(m.t)), valueOf(m.t, m.raw[i]))); return true; };
  auto disp = dyn_cast<DisposableElementsAttr>(e); auto ap = [&](ElementsAttr a, const char *path) { int64_t i = 0; if (isF(m.t)) { for (APFloat f : a.getValues<APFloat>()) { if (!cmp(path, i++, f.bitcastToAPInt().getZExtValue())) return false; } } else for (APInt f : a.getValues<APInt>()) { if (f.getBitWidth() != (unsigned)TYPES[m.t].bits) return bad(path, "width"); if (!cmp(path, i++, f.getZExtValue())) return false; } if (i != n) return bad(path, fmt("%ld elements", (long)i)); return true; };
  if (!ap(e, "values")) return false;
  bool ok = dispatchByBType(TYPES[m.t].bt, [&](auto bt) -> bool { using T = CppType<bt>; auto raw = [](T x) { uint64_t r = 0; memcpy(&r, &x, sizeof x); return r; };
    { auto a = getElementsArray<T>(e); if ((int64_t)a.get().size() != n) return bad("array", fmt("%zu elements", a.get().size())); for (int64_t i = 0; i < n; ++i) if (!cmp("array", i, raw(a.get()[i]))) return false; }
    { std::vector<char> back(n * sizeof(T) + 1, 0x5a); T *p = (T *)aligned_alloc(16, (n * sizeof(T) + 16) / 16 * 16); readElementsArray<T>(e, MutableArrayRef<T>(p, n)); bool r = true; for (int64_t i = 0; i < n && r; ++i) r = cmp("read-array", i, raw(p[i])); free(p); if (!r) return false; }
    if constexpr (listed<T>) if (disp || (n && (!isF(m.t) || std::is_floating_point_v<T>))) { auto vs = e.tryGetValues<T>(); if (!vs) return bad("typed-values", "refused"); int64_t i = 0; for (T x : *vs) if (!cmp("typed-values", i++, raw(x))) return false; if (i != n) return bad("typed-values", "count"); }
    return true; }); if (!ok) return false;
  { auto a = getElementsWideNums(e); if ((int64_t)a.get().size() != n) return bad("wide", fmt("%zu elements", a.get().size())); for (int64_t i = 0; i < n; ++i) if (!cmp("wide", i, narrowed(m.t, a.get()[i]))) return false;
    // the wide form of a bool is 0 or 1
    if (TYPES[m.t].kind == 'b') for (int64_t i = 0; i < n; ++i) if (a.get()[i].u64 > 1) return bad("wide-bool", fmt("%lx", (long)a.get()[i].u64));
    std::vector<WideNum> d(n); readElementsWideNums(e, d); for (int64_t i = 0; i < n; ++i) if (!cmp("read-wide", i, narrowed(m.t, d[i]))) return false; }
  { int64_t i = 0; auto vs = e.tryGetValues<Attribute>(); if (!vs) return bad("attributes", "refused"); for (Attribute a : *vs) { uint64_t g; if (isF(m.t)) { auto f = dyn_cast<FloatAttr>(a); if (!f || f.getType() != ty.getElementType()) return bad("attributes", "kind"); g = f.getValue().bitcastToAPInt().getZExtValue(); } else { auto f = dyn_cast<IntegerAttr>(a); if (!f || f.getType() != ty.getElementType()) return bad("attributes", "kind"); g = f.getValue().getZExtValue(); } if (!cmp("attributes", i++, g)) return false; } if (i != n) return bad("attributes", "count"); }
  if (e.isSplat()) { for (int64_t i = 0; i < n; ++i) if (!same(m, m.raw[0], m.raw[i])) return bad("splat", "claimed for different elements"); if (n && !cmp("splat-value", 0, narrowed(m.t, getElementsSplatWideNum(e)))) return false; M->count("splats"); }
  if (disp) { M->count("disposable"); if (disp.getBType() != TYPES[m.t].bt) return bad("btype", ""); auto rb = disp.getRawBytes(); int wd = bytesOf(m.t); if ((int64_t)rb.get().size() != n * wd) return bad("bytes", fmt("%zu bytes", rb.get().size())); for (int64_t i = 0; i < n; ++i) { uint64_t g = 0; memcpy(&g, rb.get().data() + i * wd, wd); if (!cmp("bytes", i, g)) return false; } }
  else M->count("dense");
  auto de = ElementsAttrBuilder::toDenseElementsAttr(e); if (!de || de.getType() != ty) return bad("dense", "type"); if (!ap(de, "dense")) return false;
  if (text && disp) for (int k = 0; k < 2; ++k) { if (k && !n) break; OnnxLike::asDense = k; string s; { llvm::raw_string_ostream o(s); Attribute(e).print(o); } if (k) { size_t c = s.find(" : "), c2 = c == string::npos ? c : s.find(" : ", c + 3); if (c2 != string::npos) s.resize(c2); if (s.compare(0, 6, "#onnx.") == 0) s = s.substr(6); } // the type is printed by the attribute and by its dialect
    Attribute p = parseAttribute(s, &w.ctx); OnnxLike::asDense = false; auto pe = p ? dyn_cast<ElementsAttr>(p) : ElementsAttr(); if (!pe || pe.getShapedType() != ty) return bad(k ? "dense-text" : "text", s.substr(0, 300)); if (!ap(pe, k ? "dense-text" : "text")) return false; M->count(k ? "printed_dense" : "printed"); }
  return true; }
