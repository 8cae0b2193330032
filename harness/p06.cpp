// P06: Resize_Scales / Resize_Size (linear, cubic; half_pixel) against a double-precision separable reference.
#include "mon.hpp"
#include "OnnxMlirRuntime.h"
extern "C" {
void Resize_Scales(OMTensor *output, OMTensor *data, OMTensor *scales, char *mode, char *nearest);
void Resize_Size(OMTensor *output, OMTensor *data, OMTensor *size, char *mode, char *nearest);
}
static Mon *M;
// weights of one axis: for output coordinate x the (index, weight) pairs
static std::vector<std::pair<int64_t, double>> taps(int64_t x, double scale, int64_t len, bool cubic) {
  double o = (x + 0.5) / scale - 0.5, f = floor(o), t = o - f; std::vector<std::pair<int64_t, double>> v; const double A = -0.75;
  auto cl = [&](double i) { return (int64_t)std::min<double>(std::max<double>(i, 0), len - 1); };
  if (!cubic) { v.push_back({cl(f), 1 - t}); v.push_back({cl(f + 1), t}); return v; }
  for (int k = -1; k <= 2; ++k) { double d = fabs(t - k), w = d <= 1 ? ((A + 2) * d - (A + 3)) * d * d + 1 : d < 2 ? ((A * d - 5 * A) * d + 8 * A) * d - 4 * A : 0; v.push_back({cl(f + k), w}); }
  return v;
}
static void oneCase(Rng &r, long idx) {
  int rank = r.chance(1, 3) ? 4 : r.in(1, 5); bool cubic = r.chance(1, 2), bySize = r.chance(1, 2);
  std::vector<int64_t> in(rank), out(rank); std::vector<float> sc(rank); int64_t ni = 1, no = 1;
  for (int i = 0; i < rank; ++i) {
    int64_t room = 400 / no; in[i] = r.chance(1, 4) ? 1 : r.in(1, rank > 3 ? 5 : rank == 1 ? 60 : 9);
    if (ni * in[i] > 300) in[i] = 1;
    if (r.chance(1, 3)) { out[i] = in[i]; sc[i] = 1; }
    else if (bySize) out[i] = r.in(1, std::max<int64_t>(1, std::min<int64_t>(rank == 1 ? 200 : 3 * in[i] + 3, room)));
    else { switch (r.in(0, 4)) { case 0: sc[i] = r.in(1, 4); break; case 1: sc[i] = 1.0f / r.in(1, 7); break; case 2: sc[i] = r.in(1, 40) / 10.0f; break; case 3: sc[i] = 0.3f + 3 * r.unit(); break; default: sc[i] = (float)r.in(1, 12) / in[i]; }
      // what the compiler's shape inference computes: floor of the product of the f32 scale with the dimension
      out[i] = (int64_t)floor((double)sc[i] * in[i]); if (out[i] < 1) { sc[i] = 1; out[i] = in[i]; } if (out[i] > room) { sc[i] = 1; out[i] = in[i]; } }
    if (no * out[i] > (r.chance(1, 40) ? 6000 : 500)) { out[i] = in[i] = 1; sc[i] = 1; }
    if (bySize) sc[i] = (float)out[i] / in[i];
    ni *= in[i]; no *= out[i];
  }
  float *src = (float *)malloc(4 * ni), *dst = (float *)malloc(4 * no); double mx = 0;
  int prof = r.in(0, 3);
  for (int64_t i = 0; i < ni; ++i) { src[i] = prof == 0 ? (float)i + 1 : prof == 1 ? (r.unit() - 0.5) * 1e4 : prof == 2 ? r.in(0, 1) * 1000 : r.unit(); mx = std::max(mx, (double)fabsf(src[i])); }
  for (int64_t i = 0; i < no; ++i) { uint32_t q = 0x7fc12345; memcpy(dst + i, &q, 4); }
  std::vector<float> copy(src, src + ni);
  int64_t *size = (int64_t *)malloc(8 * rank); float *scale = (float *)malloc(4 * rank); for (int i = 0; i < rank; ++i) { size[i] = out[i]; scale[i] = sc[i]; }
  int64_t rr = rank; OMTensor *D = omTensorCreate(src, in.data(), rank, ONNX_TYPE_FLOAT), *O = omTensorCreate(dst, out.data(), rank, ONNX_TYPE_FLOAT), *S = omTensorCreate(scale, &rr, 1, ONNX_TYPE_FLOAT), *Z = omTensorCreate(size, &rr, 1, ONNX_TYPE_INT64);
  char mode[8]; strcpy(mode, cubic ? "cubic" : "linear"); char nm[] = "floor";
  std::string d = fmt("%s by %s in ", mode, bySize ? "size" : "scale") + str(in) + " out " + str(out) + " scales ["; for (float s : sc) d += fmt("%.9g ", s); d += "]";
  if (bySize) Resize_Size(O, D, Z, mode, nm); else Resize_Scales(O, D, S, mode, nm);
  M->ev(); M->count(fmt("rank%d_%s", rank, mode)); M->sample(d); M->count("elements", no);
  if (memcmp(copy.data(), src, 4 * ni)) M->violate("input-modified", d);
  std::vector<std::vector<std::vector<std::pair<int64_t, double>>>> tp(rank);
  for (int a = 0; a < rank; ++a) for (int64_t x = 0; x < out[a]; ++x) tp[a].push_back(taps(x, sc[a], in[a], cubic));
  // separable evaluation, one axis at a time
  std::vector<double> cur(src, src + ni); std::vector<int64_t> cs = in;
  for (int a = 0; a < rank; ++a) { int64_t outer = 1, inner = 1; for (int k = 0; k < a; ++k) outer *= cs[k]; for (int k = a + 1; k < rank; ++k) inner *= cs[k];
    std::vector<double> nx(outer * out[a] * inner); for (int64_t o = 0; o < outer; ++o) for (int64_t x = 0; x < out[a]; ++x) for (int64_t i = 0; i < inner; ++i) { double s = 0; for (auto &p : tp[a][x]) s += p.second * cur[(o * cs[a] + p.first) * inner + i]; nx[(o * out[a] + x) * inner + i] = s; }
    cur = nx; cs[a] = out[a]; }
  // float coordinates carry an absolute error up to 1e-5 of a pixel at these sizes
  double tol = mx * 2e-4 * rank + 1e-6; bool changed = false;
  for (int64_t i = 0; i < no; ++i) { if (!(fabs(dst[i] - cur[i]) <= tol)) { M->violate(dst[i] != dst[i] ? "element-not-written" : "value", d + fmt(" element %ld got %.9g want %.9g", (long)i, dst[i], cur[i])); break; } }
  uint64_t h = mixh(cubic, bySize); for (int i = 0; i < rank; ++i) { changed |= in[i] != out[i]; uint32_t u; memcpy(&u, &sc[i], 4); h = mixh(mixh(h, in[i]), u); } if (changed) M->distinct(h);
  for (auto *x : {D, O, S, Z}) omTensorDestroy(x); free(src); free(dst); free(size); free(scale);
}
int main(int argc, char **argv) { Mon m; M = &m; m.run("resize", atol(argv[1]), oneCase); return m.finish(); }
