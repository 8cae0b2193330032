// Half-precision conversions as a compiler emits them: calls of __extendhfsf2 / __truncsfhf2 / __truncdfhf2,
// which resolve to the runtime's. Compiled without F16C.
#include <stdint.h>
#include <string.h>
__attribute__((noinline)) float abi_extend(uint16_t u) { volatile _Float16 h; memcpy((void *)&h, &u, 2); return (float)h; }
__attribute__((noinline)) uint16_t abi_trunc(float f) { volatile float v = f; _Float16 h = (_Float16)v; uint16_t u; memcpy(&u, &h, 2); return u; }
__attribute__((noinline)) uint16_t abi_truncd(double f) { volatile double v = f; _Float16 h = (_Float16)v; uint16_t u; memcpy(&u, &h, 2); return u; }
