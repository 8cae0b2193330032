#include "mon.hpp"
#include "fpref.hpp"
using namespace fpref; static Mon *M;
extern "C" { float abi_extend(uint16_t); uint16_t abi_trunc(float); uint16_t abi_truncd(double); float __gnu_h2f_ieee(uint16_t); uint16_t __gnu_f2h_ieee(float); }
int main(int argc, char **argv) { Mon m; M = &m;
  m.run("extend", 1, [](Rng &, long) { for (uint32_t v = 0; v < 65536; ++v) { double w = decode(v, 5, 10, 15, true, false); M->ev(2); for (float g : {abi_extend(v), __gnu_h2f_ieee(v)}) if (w != w ? g == g : g != w) M->violate("abi-extend", fmt("%04x gives %g", v, g)); } M->count("abi_extend", 65536); M->distinct(1); });
  m.run("trunc", atol(argv[1]), [](Rng &r, long) { for (int i = 0; i < 1000; ++i) { float f = r.chance(1, 3) ? flt((uint32_t)r.next()) : (float)((r.unit() - 0.5) * pow(2, r.in(-26, 18))); if (f != f) continue; uint16_t w = f16(bits(f)); M->ev(3); M->count("abi_trunc");
    if (abi_trunc(f) != w) M->violate("abi-trunc", fmt("%g gives %04x want %04x", f, abi_trunc(f), w)); if (abi_truncd(f) != w) M->violate("abi-trunc-double", fmt("%g", f)); if (__gnu_f2h_ieee(f) != w) M->violate("gnu-f2h", fmt("%g", f)); M->distinct(w); } });
  return m.finish(); }
