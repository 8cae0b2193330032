// P16: input lists generated from signatures, against an independent model of signature, overrides and bounds.
#include "mon.hpp"
#include "typed.hpp"
#include "OnnxMlirRuntime.h"
#include "src/Runtime/OMTensorHelper.hpp"
#include "src/Runtime/OMTensorListHelper.hpp"
#include <cfloat>
using std::string;
static Mon *M;
struct Ent { int t; std::vector<int64_t> d; };
static const char *MN[] = {"undefined", "f32", "ui8", "i8", "ui16", "i16", "i32", "i64", "string", "i1", "f16", "f64", "ui32", "ui64", "complex64", "complex128", "bf16", "f8e4m3fn", "f8e4m3fnuz", "f8e5m2", "f8e5m2fnuz", "ui4", "i4"};
static const char *NN[] = {"", "float32", "uint8", "int8", "uint16", "int16", "int32", "int64", "str", "bool_", "float16", "float64", "uint32", "uint64"};
static string ws(Rng &r) { static const char *w[] = {"", " ", "  ", "\n", "\t "}; return w[r.in(0, 4)]; }
static string sig(Rng &r, const std::vector<Ent> &es) {
  string s = ws(r) + "[" + ws(r);
  for (size_t i = 0; i < es.size(); ++i) {
    std::vector<string> f; string dims = "\"dims\"" + ws(r) + ":" + ws(r) + "[" + ws(r);
    for (size_t k = 0; k < es[i].d.size(); ++k) dims += (k ? "," + ws(r) : "") + std::to_string(es[i].d[k]) + ws(r);
    dims += "]"; string tn = MN[es[i].t]; if (es[i].t == typed::F32 && r.chance(1, 4)) tn = "float"; if (es[i].t == typed::F64 && r.chance(1, 4)) tn = "double";
    f.push_back("\"type\"" + ws(r) + ":" + ws(r) + "\"" + tn + "\""); f.push_back(dims);
    static const char *names[] = {"x", "image data", "", "a{b}[c],:", "é€", "q\\\"z", "back\\\\", "t\\\" , \\\"type\\\" : \\\"f64"};
    if (r.chance(3, 4)) f.push_back("\"name\"" + ws(r) + ":" + ws(r) + "\"" + names[r.in(0, 7)] + "\"");
    r.shuffle(f); s += "{"; for (size_t k = 0; k < f.size(); ++k) s += (k ? ws(r) + "," : "") + ws(r) + f[k]; s += ws(r) + "}" + ws(r) + (i + 1 < es.size() ? "," + ws(r) : "");
  }
  return s + "]" + ws(r);
}
static bool supported(int t) { return t >= 1 && t <= 13; }
static bool isInt(int t) { return t == 2 || t == 3 || t == 4 || t == 5 || t == 6 || t == 7 || t == 12 || t == 13; }
static void irange(int t, long double &mn, long double &mx) {
  switch (t) { case 2: mn = 0; mx = 255; break; case 3: mn = -128; mx = 127; break; case 4: mn = 0; mx = 65535; break; case 5: mn = -32768; mx = 32767; break; case 6: case 8: mn = -2147483648.0L; mx = 2147483647; break;
  case 7: mn = -9223372036854775808.0L; mx = 9223372036854775807.0L; break; case 12: mn = 0; mx = 4294967295.0L; break; case 13: mn = 0; mx = 18446744073709551615.0L; break; case 9: mn = 0; mx = 1; break; } }
// inclusive value bounds of the fill; false when such a request must be refused; undecided: neither demanded
static int bounds(int t, double lo, double hi, long double &a, long double &b) {
  if (!supported(t) || !(lo <= hi)) return 0;
  if (t == 9) { a = lo > 0.5; b = hi > 0.5; return 1; }
  if (isInt(t) || t == 8) { long double mn, mx; irange(t, mn, mx); if (hi < mn || lo > mx) return 0; a = truncl(lo); b = truncl(hi); if (a < mn) a = mn; if (b > mx) b = mx; if (a > b) return 2; return 1; }
  if (t == 10) { if (lo < -65504 || hi > 65504) return 0; a = typed::f16(typed::toF16((float)lo)); b = typed::f16(typed::toF16((float)hi)); return 1; }
  if (t == 1) { if (lo < -FLT_MAX || hi > FLT_MAX) return 0; a = (float)lo; b = (float)hi; if ((double)hi - lo > FLT_MAX) return 2; return 1; }
  if (!std::isfinite(lo) || !std::isfinite(hi)) return 0; if (!std::isfinite(hi - lo)) return 2; a = lo; b = hi; return 1;
}
static double num(Rng &r, int t, string &s) {
  static const double small[] = {0, 1, -1, 2, 5, -7, 0.5, 0.25, -0.75, 10, 100, 3};
  static const double ext[] = {127, 128, 255, 256, -128, -129, 32767, 65535, 65536, 70000, 2147483647., 2147483648., 4294967295., -2147483648., 1e10, 9.2e18, 1.8e19, -9.2e18, 1e38, -1e30, 60000, 1e300};
  double v = r.chance(2, 3) ? small[r.in(0, 11)] : ext[r.in(0, 21)]; (void)t;
  char b[64]; snprintf(b, sizeof b, r.chance(1, 4) ? "%e" : "%.12g", v); s = b; return atof(b);
}
static string readAll(int fd) { string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static void destroyAll(OMTensorList *l) { if (l) omTensorListDestroy(l); }
static uint64_t digest(OMTensorList *l, bool &anyRandom) {
  uint64_t h = 1; anyRandom = false;
  for (int64_t i = 0; i < omTensorListGetSize(l); ++i) { OMTensor *t = omTensorListGetOmtByIndex(l, i); int64_t n = omTensorGetNumElems(t); h = mixh(h, n + omTensorGetDataType(t));
    if (omTensorGetDataType(t) == ONNX_TYPE_STRING) { char **p = (char **)omTensorGetDataPtr(t); for (int64_t k = 0; k < n; ++k) h = mixh(h, hashStr(p[k])); } else h = hashBytes(omTensorGetDataPtr(t), omTensorGetBufferSize(t), h);
    if ((omTensorGetDataType(t) == ONNX_TYPE_FLOAT || omTensorGetDataType(t) == ONNX_TYPE_DOUBLE) && n >= 16) anyRandom = true; }
  return h;
}
struct Spec { bool mn = false, mx = false, soz = false; double lo = 0, hi = 0; int64_t n = 0; };
// contents of one tensor against its bounds
static void checkTensor(OMTensor *t, const Ent &e, const Spec &sp, double lo, double hi, const string &what) {
  auto bad = [&](const string &k, const string &d) { M->violate("input-" + k, what + ": " + d); };
  if (!t) { bad("null", "null tensor in the list"); return; }
  if (omTensorGetDataType(t) != e.t) bad("type", fmt("type %d, signature %s", (int)omTensorGetDataType(t), MN[e.t]));
  if (omTensorGetRank(t) != (int64_t)e.d.size()) { bad("rank", fmt("rank %ld, expected %zu", (long)omTensorGetRank(t), e.d.size())); return; }
  int64_t n = 1, st = 1; for (size_t k = e.d.size(); k-- > 0;) { if (omTensorGetShape(t)[k] != e.d[k]) { bad("shape", fmt("dim %zu is %ld, expected %ld", k, (long)omTensorGetShape(t)[k], (long)e.d[k])); return; } if (omTensorGetStrides(t)[k] != st) bad("strides", fmt("stride %zu is %ld, expected %ld", k, (long)omTensorGetStrides(t)[k], (long)st)); st *= e.d[k]; n *= e.d[k]; }
  if (!omTensorGetOwning(t)) bad("owning", "generated data would leak");
  char *p = (char *)omTensorGetDataPtr(t); int es = typed::size(e.t); M->count("elements_checked", n);
  if (sp.soz) { int64_t in = e.d.back(); bool varied = false; int64_t first = -1;
    for (int64_t row = 0; in > 0 && row < n / in; ++row) { int64_t c = 0; while (c < in && typed::key(e.t, p + (row * in + c) * es) == 1) ++c; for (int64_t k = c; k < in; ++k) if (typed::key(e.t, p + (row * in + k) * es) != 0) { bad("soz", fmt("row %ld: ones then zeros broken at %ld", (long)row, (long)k)); return; }
      if (sp.n >= 0 ? c != std::min(sp.n, in) : (c < 1 || c > std::max<int64_t>(1, in - 1))) { bad("soz-count", fmt("row %ld has %ld ones of %ld, requested %ld", (long)row, (long)c, (long)in, (long)sp.n)); return; } if (first < 0) first = c; varied |= c != first; }
    if (sp.n < 0 && in >= 4 && n / in >= 60 && !varied) bad("soz-random", "every row has the same random count"); M->count("soz_tensors"); return; }
  long double a, b; if (bounds(e.t, lo, hi, a, b) != 1) return;
  std::map<long double, long> seen; long double mn = 0, mx = 0;
  for (int64_t i = 0; i < n; ++i) { long double v;
    if (e.t == typed::STR) { const char *s = ((const char **)p)[i]; char *end; v = strtoll(s, &end, 10); if (!*s || *end) { bad("string", string("element '") + s + "' is no integer"); return; } if ((char *)s < p || (char *)s >= p + omTensorGetBufferSize(t) + n * 24 + 64) bad("string-layout", "string outside of the packed buffer"); }
    else v = typed::key(e.t, p + i * es);
    if (!(v >= a && v <= b)) { bad("value:" + string(MN[e.t]), fmt("element %ld = %Lg outside [%Lg, %Lg] (requested %g..%g)", (long)i, v, a, b, lo, hi)); return; }
    if (!i || v < mn) mn = v; if (!i || v > mx) mx = v; if (seen.size() < 64) seen[v]++; }
  bool integral = isInt(e.t) || e.t == typed::STR || e.t == typed::BOOL;
  if (integral && b - a < 16 && n >= 50 * (int64_t)(b - a + 1)) { if ((long double)seen.size() != b - a + 1) bad("distribution:" + string(MN[e.t]), fmt("%zu of %Lg values of [%Lg, %Lg] appear in %ld elements", seen.size(), b - a + 1, a, b, (long)n)); M->count("full_ranges_seen"); }
  else if (n >= 120 && b > a && (!integral || b - a >= 64) && (e.t != typed::F16 || b - a > 0.05)) { if (mn > a + (b - a) * 0.3L || mx < a + (b - a) * 0.7L) bad("distribution:" + string(MN[e.t]), fmt("%ld elements lie in [%Lg, %Lg] only, of [%Lg, %Lg]", (long)n, mn, mx, a, b)); M->count("spread_checked"); }
}
static double dlo(int t) { return t == 1 || t == 11 || t == 10 ? -0.1 : t == 3 || t == 5 || t == 6 || t == 7 ? -10 : 0; }
static double dhi(int t) { return t == 1 || t == 11 || t == 10 ? 0.1 : t == 9 ? 1 : t == 8 ? 63 : 10; }
static string idText(Rng &r, int lo, int hi, int n) { if (lo == 0 && hi == n - 1 && r.chance(1, 2)) return "-1"; if (lo == hi && r.chance(2, 3)) return ws(r) == "" ? std::to_string(lo) : " " + std::to_string(lo); return std::to_string(lo) + (r.chance(1, 4) ? " - " : "-") + std::to_string(hi); }
static void oneSignature(Rng &r, long) {
  int n = r.chance(1, 12) ? 0 : r.in(1, 6); std::vector<Ent> es(n), want; bool sameRank = r.chance(1, 2); int rank0 = r.in(0, 4); bool refuse = false; string why;
  for (auto &e : es) { e.t = r.chance(1, 40) ? r.in(14, 22) : r.in(1, 13); int rk = sameRank ? rank0 : r.in(0, 5); for (int k = 0; k < rk; ++k) e.d.push_back(r.chance(1, 20) ? 0 : r.chance(1, 10) ? r.in(8, 40) : r.in(1, 6)); int64_t tot = 1; for (auto &x : e.d) { if (tot * x > 20000) x = 1; tot *= std::max<int64_t>(x, 1); } }
  want = es;
  // make dimensions dynamic, then give them back through the shape information
  std::vector<std::vector<int64_t>> over(n); string shapeInfo; bool haveShape = false;
  for (int i = 0; i < n; ++i) for (auto &x : es[i].d) if (r.chance(1, 4)) x = -1;
  auto entry = [&](int lo, int hi, const std::vector<int64_t> &d) { if (haveShape) shapeInfo += r.chance(1, 2) ? "," : ", "; haveShape = true; shapeInfo += idText(r, lo, hi, n) + ":"; for (size_t k = 0; k < d.size(); ++k) shapeInfo += (k ? "x" : "") + std::to_string(d[k]); for (int i = lo; i <= hi; ++i) over[i] = d; };
  if (n && r.chance(1, 3)) { // an entry for several inputs, some of it replaced by later entries
    int lo = r.in(0, n - 1), hi = lo; while (hi + 1 < n && es[hi + 1].d.size() == es[lo].d.size()) ++hi; if (es[lo].d.size()) { std::vector<int64_t> d; for (size_t k = 0; k < es[lo].d.size(); ++k) d.push_back(r.chance(1, 3) ? -1 : r.in(0, 5)); entry(lo, hi, d); } }
  for (int i = 0; i < n; ++i) { bool dyn = false; for (auto x : es[i].d) dyn |= x < 0; if (es[i].d.empty() || (!dyn && over[i].empty() && r.chance(2, 3))) continue; if (r.chance(1, 25)) continue;
    std::vector<int64_t> d; for (size_t k = 0; k < es[i].d.size(); ++k) d.push_back(es[i].d[k] >= 0 ? (r.chance(1, 2) ? -1 : want[i].d[k]) : want[i].d[k]); entry(i, i, d); }
  for (int i = 0; i < n; ++i) for (size_t k = 0; k < es[i].d.size(); ++k) { int64_t o = over[i].empty() ? -1 : over[i][k]; if (es[i].d[k] >= 0 && o >= 0 && o != es[i].d[k]) { refuse = true; why = "conflicting dimension"; } if (es[i].d[k] < 0) { if (o < 0) { refuse = true; why = "dynamic dimension"; } else want[i].d[k] = o; } else want[i].d[k] = es[i].d[k]; }
  // values
  std::vector<Spec> sp(n); string valueInfo; bool haveValue = false; bool refuseValue = false;
  for (int i = 0, c = r.in(0, n ? n + 1 : 0); i < c; ++i) { int lo = r.in(0, n - 1), hi = r.chance(1, 3) ? r.in(lo, n - 1) : lo; if (r.chance(1, 8)) lo = 0, hi = n - 1; Spec s; string t, b; int form = r.in(0, 6); bool sep = r.chance(1, 2);
    if (form <= 1) { s.mn = true; s.lo = num(r, 0, b); t += "min" + b; } if (form == 1 || form == 2) { if (!t.empty() && sep) t += " "; s.mx = true; s.hi = num(r, 0, b); if (s.mn && s.hi < s.lo && r.chance(3, 4)) { std::swap(s.lo, s.hi); t = fmt("min%.12g%smax%.12g", s.lo, sep ? " " : "", s.hi); s.lo = atof(fmt("%.12g", s.lo).c_str()); s.hi = atof(fmt("%.12g", s.hi).c_str()); } else t += "max" + b; }
    if (form == 3) { s.mn = s.mx = true; s.lo = s.hi = num(r, 0, b); t = "val" + b; } if (form == 4 || form == 5) { s.soz = true; s.n = r.chance(1, 3) ? -1 : r.in(0, 8); t = "soz" + std::to_string(s.n); } if (form == 6) { s.mn = s.mx = true; s.lo = -r.in(0, 6); s.hi = r.in(0, 7); t = "min" + std::to_string((int)s.lo) + (sep ? "\t" : "") + "max" + std::to_string((int)s.hi); }
    if (s.soz && r.chance(1, 15)) { t += " max2"; refuseValue = true; }
    valueInfo += (haveValue ? "," : "") + idText(r, lo, hi, n) + ":" + (r.chance(1, 3) ? " " : "") + t; haveValue = true; for (int k = lo; k <= hi; ++k) sp[k] = s; }
  // default bounds per type
  double lb[23], ub[23]; for (int t = 0; t < 23; ++t) lb[t] = dlo(t), ub[t] = dhi(t); string LB, UB;
  for (int side = 0; side < 2; ++side) for (int i = r.in(0, 3); i > 0; --i) { int t = r.in(1, 13); string b; double v = r.chance(2, 3) ? (side ? r.in(1, 100) : -r.in(1, 100)) * (r.chance(1, 2) ? 1 : 0.01) : num(r, t, b); if (b.empty()) { b = fmt("%.12g", v); v = atof(b.c_str()); } string nm = t == 9 && r.chance(1, 2) ? "bool" : NN[t]; (side ? UB : LB) += string((side ? UB : LB).empty() ? "" : ",") + (r.chance(1, 2) ? " " : "") + nm + (r.chance(1, 4) ? " " : "") + ":" + b; (side ? ub : lb)[t] = v; }
  bool unsure = false;
  for (int i = 0; i < n; ++i) { int t = es[i].t; if (sp[i].soz) { if (want[i].d.empty() || !(isInt(t) || t == 9 || t == 1 || t == 11)) { bool none = false; for (auto x : want[i].d) none |= x == 0; if (t == 10 || none) unsure = true; else { refuse = true; why = "soz of this shape or type"; } } } else { long double a, b; int k = bounds(t, sp[i].mn ? sp[i].lo : lb[t], sp[i].mx ? sp[i].hi : ub[t], a, b); if (k == 0) { refuse = true; why = supported(t) ? "impossible bounds" : "unsupported type"; } if (k == 2) unsure = true; } }
  if (refuseValue) refuse = true, why = "soz with bounds";
  string S = sig(r, es); string desc = S + " shapes '" + shapeInfo + "' values '" + valueInfo + "' lb '" + LB + "' ub '" + UB + "'"; bool verbose = r.chance(1, 6);
  unsigned seed = (unsigned)r.next(); M->ev(); M->distinct(hashStr(desc)); M->sample(desc);
  if (omDefineSeed(seed, 1) != seed) M->violate("seed", "omDefineSeed does not return the seed it was given");
  int save = -1, mem = -1; if (verbose) { fflush(stdout); save = dup(1); mem = memfd_create("o", 0); dup2(mem, 1); }
  const char *si = haveShape ? shapeInfo.c_str() : r.chance(1, 2) ? nullptr : "", *vi = haveValue ? valueInfo.c_str() : r.chance(1, 2) ? nullptr : "", *l = LB.empty() ? nullptr : LB.c_str(), *u = UB.empty() ? nullptr : UB.c_str();
  OMTensorList *L = omTensorListCreateFromInputSignature(S.c_str(), si, vi, l, u, verbose);
  if (verbose) { fflush(stdout); dup2(save, 1); close(save); string o = readAll(mem); close(mem); if (L) { size_t pos = 0; for (int i = 0; i < n; ++i) { string w = fmt("Input %d: tensor of %s with shape", i, MN[es[i].t]); for (auto x : want[i].d) w += " " + std::to_string(x); w += ","; size_t f = o.find(w, pos); if (f == string::npos) { M->violate("verbose", "no line '" + w + "' in " + o); break; } pos = f + 1; } M->count("verbose_listings"); } }
  if (refuse) { M->count("refused:" + why); if (L) M->violate("not-refused:" + why, desc); destroyAll(L); return; }
  if (!L) { if (!unsure) M->violate("refused-valid", desc); return; }
  if (unsure) { destroyAll(L); return; }
  M->count("lists_created"); M->count("tensors_created", n);
  if (omTensorListGetSize(L) != n) M->violate("list-size", fmt("%ld tensors for %d entries: ", (long)omTensorListGetSize(L), n) + desc);
  else for (int i = 0; i < n; ++i) { int t = es[i].t; checkTensor(omTensorListGetOmtByIndex(L, i), want[i], sp[i], sp[i].mn ? sp[i].lo : lb[t], sp[i].mx ? sp[i].hi : ub[t], fmt("input %d of ", i) + desc); }
  bool rnd; uint64_t h = digest(L, rnd); destroyAll(L);
  omDefineSeed(seed, 1); L = omTensorListCreateFromInputSignature(S.c_str(), si, vi, l, u, false); bool q; if (!L || digest(L, q) != h) M->violate("seed-replay", "the same seed gives other inputs: " + desc); destroyAll(L);
  bool wide = rnd; for (int i = 0; i < n && wide; ++i) if ((es[i].t == 1 || es[i].t == 11) && !sp[i].soz) { double a = sp[i].mn ? sp[i].lo : lb[es[i].t], b = sp[i].mx ? sp[i].hi : ub[es[i].t]; if (!(b > a) || (b - a) < 1e-3 * fabs(b)) wide = false; } else if (es[i].t == 1 || es[i].t == 11) wide = false;
  if (wide) { omDefineSeed(seed + 1, 1); L = omTensorListCreateFromInputSignature(S.c_str(), si, vi, l, u, false); if (L && digest(L, q) == h) M->violate("seed-ignored", "another seed gives the same inputs: " + desc); destroyAll(L); M->count("seed_changes_seen"); }
}
// broken signatures and requests: an error, never a crash or a list
static void oneMalformed(Rng &r, long) {
  int n = r.in(1, 3); std::vector<Ent> es(n); for (auto &e : es) { e.t = r.in(1, 13); for (int k = r.in(0, 3); k > 0; --k) e.d.push_back(r.in(1, 4)); }
  string S = sig(r, es); const char *si = nullptr, *vi = nullptr, *lb = nullptr, *ub = nullptr; string why, x; int kind = r.in(0, 13); bool must = true;
  auto last = S.find_last_of(']');
  switch (kind) {
  case 0: why = "truncated"; S.resize(r.in(0, last)); break;
  case 1: { why = "byte changed"; must = false; for (int k = r.in(1, 3); k > 0; --k) S[r.in(0, S.size() - 1)] = (char)r.in(1, 255); break; }
  case 2: { why = "bad input id"; x = fmt("%d:%dx1", r.chance(1, 2) ? n + (int)r.in(0, 3) : -2 - (int)r.in(0, 4), 1); if (r.chance(1, 2)) vi = "9:min1", si = nullptr; else si = x.c_str(); break; }
  case 3: { static const char *b[] = {"x", ":", "0", "0:", "0:1:2", "a:1", "0-9:1", "2-1:1", "0:axb", "0:-3", "0:1x-2", ",", "0--1:2", "1e:3"}; why = "bad shape text"; si = b[r.in(0, 13)]; if (!strcmp(si, "0:")) must = false; if (!strcmp(si, "1e:3")) must = false; break; }
  case 4: { static const char *b[] = {"0:foo1", "0:min", "0:min a", "0:mi", "0:val", "0:soz-2", "0:soz", "5:", "0:min1 max", "0:soz1 min0", ":val1", "0:xyz5"}; why = "bad value text"; vi = b[r.in(0, 11)]; break; }
  case 5: { static const char *b[] = {"float:1", "int8", "int8:", "int8:x", ":3", "int128:3", "int8:1:2", "Float32:1", "f32:3", " :1"}; why = "bad bound text"; (r.chance(1, 2) ? lb : ub) = b[r.in(0, 9)]; break; }
  case 6: { why = "type missing or wrong"; static const char *b[] = {"[{\"dims\" : [1]}]", "[{}]", "[{\"type\" : 3, \"dims\" : [1]}]", "[{\"type\" : \"f31\", \"dims\" : [1]}]", "[{\"type\" : \"\", \"dims\" : []}]", "[{\"type\" : \"F32\", \"dims\" : []}]", "[{\"type\" : [\"f32\"]}]", "[{\"type\" : \"undefined\", \"dims\" : [1]}]", "[{\"type\" : \"f32\", \"dims\" : [1]} , {\"dims\" : [2]}]"}; S = b[r.in(0, 8)]; break; }
  case 7: { why = "not a signature"; static const char *b[] = {"", " ", "{", "null", "[1]", "[\"f32\"]", "[[", "\"[\"", "{\"type\" : \"f32\"}", "[{\"type\" \"f32\"}]", "[{\"type\" : \"f32\" , \"dims\" : 3}]", "[{\"type\" : \"f32\" , \"dims\" : [a]}]", "[{type : \"f32\"}]", "[{\"type\" : \"f32\\\"", "[{\"type\" : \"f32\" , \"dims\" : [\"2\"]}]"}; S = b[r.in(0, 14)]; break; }
  case 8: { why = "shape too large"; static const char *b[] = {"[{\"type\" : \"f32\" , \"dims\" : [4294967296, 4294967296]}]", "[{\"type\" : \"i8\" , \"dims\" : [3037000500, 3037000500, 4]}]", "[{\"type\" : \"f64\" , \"dims\" : [2305843009213693952]}]", "[{\"type\" : \"f16\" , \"dims\" : [9223372036854775807]}]", "[{\"type\" : \"i64\" , \"dims\" : [2, 4611686018427387904, 2]}]", "[{\"type\" : \"string\" , \"dims\" : [4294967296, 4294967296]}]"}; S = b[r.in(0, 5)]; if (r.chance(1, 3)) vi = "0:soz2"; break; }
  case 9: { why = "impossible bounds"; static const char *b[] = {"min2 max1", "min300 max400", "minnan", "max-5e30", "mininf", "min-nan", "min0.9 max0.6"}; S = "[{\"type\" : \"" + string(r.chance(1, 2) ? "ui8" : "i1") + "\" , \"dims\" : [3]}]"; x = string("0:") + b[r.in(0, 6)]; if (S.find("i1") != string::npos && (x.find("300") != string::npos || x.find("inf") != string::npos)) { if (x.find("inf") == string::npos) x = "0:min2 max1"; } vi = x.c_str(); break; }
  case 10: { why = "dynamic dimension"; S = "[{\"type\" : \"f32\" , \"dims\" : [2, -1]}]"; static const char *b[] = {nullptr, "", "0:2x-1", "0:-1x-1", "0:2"}; si = b[r.in(0, 4)]; break; }
  case 11: { why = "conflicting dimension"; S = "[{\"type\" : \"f32\" , \"dims\" : [2, 3]}]"; static const char *b[] = {"0:3x3", "0:2x2", "-1:2x4", "0-0:0x3", "0:2x3,0:9x3"}; si = b[r.in(0, 4)]; break; }
  case 12: { why = "null signature"; break; }
  case 13: { why = "soz of unsupported"; S = r.chance(1, 2) ? "[{\"type\" : \"f32\" , \"dims\" : []}]" : "[{\"type\" : \"string\" , \"dims\" : [2]}]"; vi = "0:soz1"; break; }
  }
  string desc = why + ": " + S + " | " + (si ? si : "-") + " | " + (vi ? vi : "-") + " | " + (lb ? lb : "-") + " | " + (ub ? ub : "-"); M->ev(); M->distinct(hashStr(desc)); M->count("malformed:" + why); M->sample(desc);
  string copy = desc; OMTensorList *L = omTensorListCreateFromInputSignature(kind == 12 ? nullptr : S.c_str(), si, vi, lb, ub, false);
  if (L && must) M->violate("accepted:" + why, desc);
  if (L) for (int64_t i = 0; i < omTensorListGetSize(L); ++i) { OMTensor *t = omTensorListGetOmtByIndex(L, i); if (!t) { M->violate("null-tensor", desc); continue; } volatile uint64_t h = hashBytes(omTensorGetDataPtr(t), omTensorGetBufferSize(t)); (void)h; }
  destroyAll(L);
}
// the generator itself
static void oneRandom(Rng &r, long) {
  Ent e; e.t = r.in(0, 22); for (int k = r.in(0, 4); k > 0; --k) e.d.push_back(r.chance(1, 12) ? 0 : r.in(1, 9)); string a, b; double lo = num(r, 0, a), hi = num(r, 0, b); if (lo > hi && r.chance(5, 6)) std::swap(lo, hi); if (r.chance(1, 4)) lo = -1, hi = 1; if (r.chance(1, 8)) hi = lo;
  string desc = fmt("%s %s %g..%g", MN[e.t], str(e.d).c_str(), lo, hi); M->ev(); M->distinct(hashStr(desc)); if (r.chance(3, 4)) omDefineSeed((unsigned)r.next(), 1);
  long double x, y; int k = bounds(e.t, lo, hi, x, y); OMTensor *t = omTensorCreateWithRandomData(e.d, (OM_DATA_TYPE)e.t, lo, hi);
  if (k == 0 && t) M->violate("random-not-refused", desc); if (k == 1 && !t) M->violate("random-refused", desc); if (k == 1 && t) checkTensor(t, e, Spec(), lo, hi, desc); if (t) omTensorDestroy(t);
  if (r.chance(1, 2)) { Spec s; s.soz = true; s.n = r.chance(1, 2) ? -1 : r.in(0, 10); OMTensor *z = omTensorCreateSozData(e.d, (OM_DATA_TYPE)e.t, s.n); bool ok = !e.d.empty() && (isInt(e.t) || e.t == 9 || e.t == 1 || e.t == 11); if (ok && !z) M->violate("soz-refused", desc); bool none = false; for (auto q : e.d) none |= q == 0; if (!ok && z && e.t != 10 && !none) M->violate("soz-not-refused", desc); if (ok && z) checkTensor(z, e, s, 0, 0, "soz " + desc); if (z) omTensorDestroy(z); }
  if (r.chance(1, 4)) { std::vector<string> v; for (int i = r.in(0, 6); i > 0; --i) { string s; for (int j = r.in(0, 12); j > 0; --j) s += (char)r.in(1, 255); v.push_back(s); } char **p = (char **)omTensorBuildStringBuffer(v); if (p) { for (size_t i = 0; i < v.size(); ++i) if (v[i] != p[i]) M->violate("string-buffer", fmt("string %zu differs", i)); free(p); } else if (!v.empty()) M->violate("string-buffer", "null"); M->count("string_buffers"); }
}
int main(int argc, char **argv) { Mon m; M = &m; long n = atol(argv[1]); m.run("signature", n, oneSignature); m.run("malformed", n / 2, oneMalformed); m.run("random", n, oneRandom); return m.finish(); }
