// P10: C conversions, exhaustively over float patterns.
#include "mon.hpp"
#include "fpref.hpp"
#include "src/Support/SmallFPConversion.h"
static Mon *M; using namespace fpref;
static void block(Rng &, long idx, long blocks, uint32_t step) {
  uint64_t lo = ((uint64_t)idx << 32) / blocks, hi = ((uint64_t)(idx + 1) << 32) / blocks; long n = 0, nan = 0; uint64_t seen = 0;
  for (uint64_t x = lo; x < hi; x += step) { uint32_t u = (uint32_t)x; float f = flt(u); uint16_t a = om_f32_to_f16(f), b = om_f32_to_bf16(f); ++n;
    if ((u & 0x7fffffff) > 0x7f800000) { ++nan; if ((a & 0x7c00) != 0x7c00 || !(a & 0x3ff)) M->violate("f32-to-f16-nan", fmt("%08x gives %04x", u, a)); if ((b & 0x7f80) != 0x7f80 || !(b & 0x7f)) M->violate("f32-to-bf16-nan", fmt("%08x gives %04x", u, b)); continue; }
    uint16_t wa = f16(u), wb = bf16(u); if (a != wa) M->violate("f32-to-f16", fmt("%08x gives %04x want %04x", u, a, wa)); if (b != wb) M->violate("f32-to-bf16", fmt("%08x gives %04x want %04x", u, b, wb)); seen ^= mixh(a, b); }
  M->ev(2 * n); M->count("float_patterns", n); M->count("nan_patterns", nan); M->distinct(mixh(idx, seen));
  if (idx == 77) M->sample(fmt("float patterns %08lx to %08lx step %u", (unsigned long)lo, (unsigned long)hi, step));
}
static void widen(Rng &, long) {
  for (uint32_t v = 0; v < 65536; ++v) { float a = om_f16_to_f32(v), b = om_bf16_to_f32(v); double wa = decode(v, 5, 10, 15, true, false), wb = decode(v, 8, 7, 127, true, false); M->ev(2);
    auto same = [](double w, float g) { return w != w ? g != g : bits((float)w) == bits(g) && (double)g == w; };
    if (!same(wa, a)) M->violate("f16-to-f32", fmt("%04x gives %g", v, a)); if (!same(wb, b)) M->violate("bf16-to-f32", fmt("%04x gives %g", v, b));
    if (wa == wa && om_f32_to_f16(a) != v) M->violate("f16-roundtrip", fmt("%04x", v)); if (wb == wb && om_f32_to_bf16(b) != v) M->violate("bf16-roundtrip", fmt("%04x", v)); M->distinct(mixh(99, v)); }
  M->count("half_patterns", 65536);
}
int main(int argc, char **argv) { Mon m; M = &m; long B = 4096; uint32_t step = atol(argv[1]);
  m.run("widen", 1, widen); m.run("narrow", B, [&](Rng &r, long i) { block(r, i, B, step); }, 120, 128); return m.finish(); }
