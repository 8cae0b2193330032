// Typed element helpers: random raw values of an ONNX type and an exact ordering key.
#pragma once
#include "mon.hpp"
namespace typed {
enum { F32 = 1, U8, I8, U16, I16, I32, I64, STR, BOOL, F16, F64, U32, U64, C64, C128, BF16 };
inline int size(int t) { static const int s[] = {0,4,1,1,2,2,4,8,8,1,2,8,4,8,8,16,2,1,1,1,1,1,1}; return s[t]; }
inline const char *name(int t) { static const char *s[] = {"undef","f32","u8","i8","u16","i16","i32","i64","str","bool","f16","f64","u32","u64","c64","c128","bf16"}; return s[t]; }
// Own decode/encode: _Float16 arithmetic would call conversion helpers of the code under test.
inline float f16(uint16_t h) { int e = (h >> 10) & 31, m = h & 1023; float v = e == 31 ? (m ? NAN : INFINITY) : e ? ldexpf(1024 + m, e - 25) : ldexpf(m, -24); return h & 0x8000 ? -v : v; }
inline uint16_t toF16(double d) { // nearest, ties to even
  uint16_t s = std::signbit(d) ? 0x8000 : 0; d = fabs(d); if (d != d) return s | 0x7e00; if (d >= 65520) return s | 0x7c00;
  if (d < 6.103515625e-05) return s | (uint16_t)nearbyint(ldexp(d, 24));
  int e; double f = frexp(d, &e); uint32_t m = (uint32_t)nearbyint(ldexp(f, 11)); // [1024,2048]
  return s | (uint16_t)(((e + 14) << 10) + m - 1024); }
// exact ordering key
inline long double key(int t, const void *p) {
  switch (t) {
#define K(T, C) case T: { C v; memcpy(&v, p, sizeof v); return (long double)v; }
  K(F32, float) K(U8, uint8_t) K(I8, int8_t) K(U16, uint16_t) K(I16, int16_t) K(I32, int32_t) K(I64, int64_t) K(F64, double) K(U32, uint32_t) K(U64, uint64_t)
#undef K
  case BOOL: return *(const uint8_t *)p ? 1 : 0;
  case F16: { uint16_t h; memcpy(&h, p, 2); return f16(h); }
  case BF16: { uint16_t h; memcpy(&h, p, 2); uint32_t u = (uint32_t)h << 16; float f; memcpy(&f, &u, 4); return f; }
  }
  return 0;
}
// profile: 0 few distinct values, 1 full range with extremes, 2 small range, 3 all equal, 4 near-ties
inline void gen(Rng &r, int t, void *p, int profile, bool nan = false) {
  if (t == BOOL) { *(uint8_t *)p = r.in(0, 1); return; }
  bool isf = t == F32 || t == F64 || t == F16 || t == BF16;
  double d = 0; uint64_t bits = r.next(); int64_t iv = 0;
  switch (profile) {
  case 0: iv = r.in(0, 3); d = iv - 1; break;
  case 1: { static const double ex[] = {0.0, -0.0, 1e30, -1e30, 65504, -65504, 1e-7, -1e-7, INFINITY, -INFINITY, 16777216, 16777217};
    if (isf) { d = r.chance(1, 3) ? ex[r.in(0, 11)] : (r.unit() - 0.5) * pow(10.0, r.in(-4, 6)); if (nan && r.chance(1, 5)) d = NAN; }
    iv = r.chance(1, 4) ? (int64_t)(r.chance(1, 2) ? 0x8000000000000000ull : 0x7fffffffffffffffull) : r.chance(1, 4) ? -1 : (int64_t)bits; break; }
  case 2: iv = r.in(-20, 20); d = iv * 0.25; break;
  case 3: iv = 7; d = 1.5; break;
  case 4: iv = INT64_MAX - r.in(0, 2); d = 1.0 + r.in(0, 3) * 1.1920928955078125e-07; break;
  }
  switch (t) {
  case F32: { float v = (float)d; memcpy(p, &v, 4); break; }
  case F64: { double v = profile == 4 ? 1.0 + r.in(0, 3) * 2.220446049250313e-16 : d; memcpy(p, &v, 8); break; }
  case F16: { uint16_t v = toF16(profile == 4 ? 1.0 + r.in(0, 3) * 0.0009765625 : d); memcpy(p, &v, 2); break; }
  case BF16: { float v = (float)d; uint32_t u; memcpy(&u, &v, 4); uint16_t h = u >> 16; memcpy(p, &h, 2); break; }
  case I64: case U64: { if (t == I64 && r.chance(1, 10) && profile == 1) iv = INT64_MIN; memcpy(p, &iv, 8); break; }
  case I32: case U32: { int32_t v; if (profile == 1) v = r.chance(1, 4) ? INT32_MIN : r.chance(1, 4) ? INT32_MAX : (int32_t)bits; else if (profile == 4) v = INT32_MAX - r.in(0, 2); else v = (int32_t)iv; memcpy(p, &v, 4); break; }
  case I16: case U16: { int16_t v = profile == 1 ? (r.chance(1, 4) ? INT16_MIN : (int16_t)bits) : profile == 4 ? (int16_t)(INT16_MAX - r.in(0, 2)) : (int16_t)iv; memcpy(p, &v, 2); break; }
  case I8: case U8: { int8_t v = profile == 1 ? (r.chance(1, 4) ? INT8_MIN : (int8_t)bits) : profile == 4 ? (int8_t)(127 - r.in(0, 2)) : (int8_t)iv; memcpy(p, &v, 1); break; }
  }
}
} // namespace typed
