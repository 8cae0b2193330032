// Integer reference model of small float formats, independent of the code under test.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>
namespace fpref {
inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float flt(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
// float -> float16, nearest even, on integers only
inline uint16_t f16(uint32_t u) {
  uint16_t s = (u >> 16) & 0x8000; u &= 0x7fffffff;
  if (u > 0x7f800000) return s | 0x7e00; if (u >= 0x47800000) return s | 0x7c00;
  int e = (int)(u >> 23) - 127; uint64_t m = (u & 0x7fffff) | (u >> 23 ? 0x800000 : 0); if (!(u >> 23)) e = -126;
  // value = m * 2^(e-23); unit of the target: 2^(max(e,-14)-10)
  int q = (e > -14 ? e : -14) - 10, sh = q - (e - 23); if (sh > 60) return s; // sh >= 13
  uint64_t k = m >> sh, rest = m & ((1ull << sh) - 1), half = 1ull << (sh - 1); if (rest > half || (rest == half && (k & 1))) ++k;
  uint32_t r = e > -14 ? ((uint32_t)(e + 14) << 10) + (uint32_t)k : (uint32_t)k; // k includes the hidden bit for normals
  return s | (uint16_t)(r > 0x7c00 ? 0x7c00 : r); }
inline uint16_t bf16(uint32_t u) {
  if ((u & 0x7fffffff) > 0x7f800000) return (u >> 16) | 0x40;
  uint32_t k = u >> 16, rest = u & 0xffff; if (rest > 0x8000 || (rest == 0x8000 && (k & 1))) ++k; return k; }
inline double decode(uint32_t v, int eb, int mb, int bias, bool ieee, bool fnuz) { // NaN for the format's NaNs
  int w = 1 + eb + mb; bool neg = v >> (w - 1); uint32_t e = (v >> mb) & ((1u << eb) - 1), m = v & ((1u << mb) - 1);
  if (fnuz) { if (v == (1u << (w - 1))) return NAN; }
  else if (ieee) { if (e == (1u << eb) - 1) return m ? NAN : neg ? -INFINITY : INFINITY; }
  else if (e == (1u << eb) - 1 && m == (1u << mb) - 1) return NAN;
  double x = e ? ldexp((double)((1u << mb) + m), (int)e - bias - mb) : ldexp((double)m, 1 - bias - mb); return neg ? -x : x; }
struct F8 { const char *name; int eb, mb, bias; bool ieee, fnuz; std::vector<double> pos; // non-negative finite values by pattern
  F8(const char *n, int e, int m, int b, bool i, bool f) : name(n), eb(e), mb(m), bias(b), ieee(i), fnuz(f) { for (int v = 0; v < 128; ++v) { double x = decode(v, eb, mb, bias, ieee, fnuz); if (x != x || std::isinf(x)) break; pos.push_back(x); } }
  double value(uint8_t v) const { return decode(v, eb, mb, bias, ieee, fnuz); }
  // expected pattern, or -1 for "any NaN"
  int encode(float f) const { if (f != f) return -1; bool neg = std::signbit(f); double a = fabs((double)f); double top = pos.back(), next = top + (top - pos[pos.size() - 2]);
    if (std::isinf(f)) return ieee ? (neg ? 0x80 : 0) | (int)pos.size() : -1;
    size_t lo = 0, hi = pos.size(); while (hi - lo > 1) { size_t mid = (lo + hi) / 2; if (pos[mid] <= a) lo = mid; else hi = mid; }
    double l = pos[lo], h = lo + 1 < pos.size() ? pos[lo + 1] : next; size_t r = a - l < h - a ? lo : a - l > h - a ? lo + 1 : (lo & 1) ? lo + 1 : lo;
    if (r == pos.size()) return ieee ? (neg ? 0x80 : 0) | (int)r : -1;
    if (r == 0 && fnuz) return 0; return (neg ? 0x80 : 0) | (int)r; } };
}
