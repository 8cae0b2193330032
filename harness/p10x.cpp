// P10 (value classes) and P11: float_16, bfloat_16 and the 8-bit formats.
#include "mon.hpp"
#include "fpref.hpp"
#include "src/Support/SmallFP.hpp"
using namespace fpref; using namespace onnx_mlir; static Mon *M;
template <class FP> static void common(const char *n, int nb, double (*val)(uint32_t)) {
  for (uint32_t v = 0; v < (1u << nb); ++v) { FP x = FP::bitcastFromUInt(v); double w = val(v); float g = x.toFloat(); M->ev(); M->count(n);
    std::string d = fmt("%s pattern %x value %g", n, v, w);
    if ((uint32_t)x.bitcastToUInt() != v) M->violate("bitcast", d);
    if (w != w ? g == g : !((double)g == w && std::signbit(g) == std::signbit(w))) M->violate("to-float", d + fmt(" gives %g", g));
    if (x.isNaN() != (w != w)) M->violate("is-nan", d);
    llvm::APFloat af = x.toAPFloat(); if (af.isNaN() != (w != w)) M->violate("to-apfloat", d); else if (w == w) { double q = af.convertToDouble(); if (q != w) M->violate("to-apfloat", d); if (FP::fromAPFloat(af).bitcastToUInt() != v) M->violate("from-apfloat", d); }
    double dd = (double)x; if (w == w && dd != w) M->violate("cast-double", d); if (w == w && fabs(w) < 1e9) { if ((int64_t)x != (int64_t)w) M->violate("cast-int", d); if ((bool)(float)x != (w != 0)) M->violate("cast-bool", d); }
    if (w == w && FP(g).bitcastToUInt() != v) M->violate("roundtrip", d); if (w == w && FP::fromFloat(g).bitcastToUInt() != v) M->violate("roundtrip", d);
    if (w == w && FP((double)g).bitcastToUInt() != v) M->violate("roundtrip-double", d);
    FP copy(x); if (copy.bitcastToUInt() != v) M->violate("copy", d); M->distinct(mixh(hashStr(n), v)); }
}
template <class FP> static void compare(const char *n, int nb, double (*val)(uint32_t), Rng &r, long cnt) {
  for (long i = 0; i < cnt; ++i) { uint32_t a = nb == 8 ? i & 255 : r.in(0, 65535), b = nb == 8 ? (i >> 8) & 255 : r.chance(1, 3) ? (a ^ 0x8000) : r.chance(1, 2) ? a : r.in(0, 65535); if (nb == 16 && r.chance(1, 10)) { a = 0; b = 0x8000; }
    FP x = FP::bitcastFromUInt(a), y = FP::bitcastFromUInt(b); bool w = val(a) == val(b); M->ev(); if ((x == y) != w) M->violate("equal", fmt("%s %x %x", n, a, b)); if ((x != y) == w) M->violate("not-equal", fmt("%s %x %x", n, a, b)); }
  M->count("comparisons", cnt);
}
static double vf16(uint32_t v) { return decode(v, 5, 10, 15, true, false); } static double vbf(uint32_t v) { return decode(v, 8, 7, 127, true, false); }
static F8 T[] = {F8("f8e4m3fn", 4, 3, 7, false, false), F8("f8e4m3fnuz", 4, 3, 8, false, true), F8("f8e5m2", 5, 2, 15, true, false), F8("f8e5m2fnuz", 5, 2, 16, false, true)};
template <int K> static double v8(uint32_t v) { return T[K].value(v); }
static float from(Rng &r) { switch (r.in(0, 3)) { case 0: return flt((uint32_t)r.next()); case 1: return (r.unit() - 0.5) * pow(2, r.in(-30, 20)); case 2: return r.in(-70000, 70000); default: return r.in(-1000, 1000) * 0.0625f; } }
template <class FP> static void enc8(const F8 &t, float f) { int w = t.encode(f); uint8_t g = FP::fromFloat(f).bitcastToUInt(); if (w < 0 ? !(t.value(g) != t.value(g)) : g != w) M->violate("from-float", fmt("%s %.9g (%08x) gives %02x want %02x", t.name, f, bits(f), g, w)); }
template <class FP> static void bounds(const F8 &t) { // every midpoint and its two float neighbours
  for (size_t i = 0; i <= t.pos.size(); ++i) { double l = i < t.pos.size() ? t.pos[i] : t.pos.back() * 1.2, h = i + 1 < t.pos.size() ? t.pos[i + 1] : t.pos.back() + (t.pos.back() - t.pos[t.pos.size() - 2]); float mid = (float)((l + h) / 2);
    for (float f : {(float)l, mid, nextafterf(mid, 0), nextafterf(mid, INFINITY)}) for (float s : {f, -f}) { enc8<FP>(t, s); M->ev(); M->count("midpoints"); } }
  if (!(FP::max == t.pos.back())) M->violate("max", t.name); }
int main(int argc, char **argv) { Mon m; M = &m; bool eight = !strcmp(argv[1], "8"); long n = atol(argv[2]);
  if (!eight) {
    m.run("patterns16", 2, [](Rng &r, long i) { if (i == 0) { common<float_16>("float_16", 16, vf16); compare<float_16>("float_16", 16, vf16, r, 100000); if (float_16::max != 65504.0f) M->violate("max", "float_16"); } else { common<bfloat_16>("bfloat_16", 16, vbf); compare<bfloat_16>("bfloat_16", 16, vbf, r, 100000); if (bits(bfloat_16::max) != 0x7f7f0000) M->violate("max", "bfloat_16"); } });
    m.run("floats16", n, [](Rng &r, long) { for (int i = 0; i < 1000; ++i) { float f = from(r); uint32_t u = bits(f); uint16_t a = float_16(f).bitcastToUInt(), b = bfloat_16(f).bitcastToUInt(); M->ev(2);
      if (f != f) { if (!float_16(f).isNaN() || !bfloat_16(f).isNaN()) M->violate("class-nan", fmt("%08x", u)); continue; } if (a != f16(u)) M->violate("class-f16", fmt("%08x gives %04x", u, a)); if (b != bf16(u)) M->violate("class-bf16", fmt("%08x gives %04x", u, b));
      if (float_16::fromAPFloat(llvm::APFloat(f)).bitcastToUInt() != a) M->violate("apfloat-f16", fmt("%08x", u)); if (bfloat_16::fromAPFloat(llvm::APFloat(f)).bitcastToUInt() != b) M->violate("apfloat-bf16", fmt("%08x", u)); } M->count("class_floats", 1000); });
  } else {
    m.run("patterns8", 4, [](Rng &r, long i) {
      if (i == 0) { common<float_8e4m3fn>(T[0].name, 8, v8<0>); compare<float_8e4m3fn>(T[0].name, 8, v8<0>, r, 65536); bounds<float_8e4m3fn>(T[0]); }
      if (i == 1) { common<float_8e4m3fnuz>(T[1].name, 8, v8<1>); compare<float_8e4m3fnuz>(T[1].name, 8, v8<1>, r, 65536); bounds<float_8e4m3fnuz>(T[1]); }
      if (i == 2) { common<float_8e5m2>(T[2].name, 8, v8<2>); compare<float_8e5m2>(T[2].name, 8, v8<2>, r, 65536); bounds<float_8e5m2>(T[2]); }
      if (i == 3) { common<float_8e5m2fnuz>(T[3].name, 8, v8<3>); compare<float_8e5m2fnuz>(T[3].name, 8, v8<3>, r, 65536); bounds<float_8e5m2fnuz>(T[3]); } });
    long low = n; m.run("floats8", 4096, [low](Rng &r, long idx) { // top 12 bits = idx; next 8 exhaustive; low bits: edges and random
      for (uint32_t mid = 0; mid < 256; ++mid) for (long k = 0; k < low; ++k) { uint32_t lo = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 0xfff : k == 3 ? 0x800 : r.in(0, 4095); float f = flt((uint32_t)idx << 20 | mid << 12 | lo);
        enc8<float_8e4m3fn>(T[0], f); enc8<float_8e4m3fnuz>(T[1], f); enc8<float_8e5m2>(T[2], f); enc8<float_8e5m2fnuz>(T[3], f); } M->ev(4 * 256 * low); M->count("floats", 256 * low); M->distinct(mixh(0x800000, idx)); }, 120, 64);
  }
  return m.finish(); }
