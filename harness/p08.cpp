// P08: RandomNormal / RandomUniform streams.
#include "mon.hpp"
#include "OnnxMlirRuntime.h"
#include <algorithm>
extern "C" {
void get_random_normal_value_f64(double *, long long, double, double, double);
void get_random_normal_value_f32(float *, long long, float, float, float);
OMTensor *run_uniform_random(OMTensor *, float, float, float);
// rand() of the C library, with extremes injected on demand
int __real_rand(void); void __real_srand(unsigned);
static int inject; static long calls;
int __wrap_rand(void) { ++calls; int v = __real_rand(); if (inject == 1 && calls % 3 == 0) return RAND_MAX; if (inject == 2 && calls % 3 == 0) return 0; if (inject == 3 && calls % 3 == 0) return RAND_MAX - (int)(calls % 129); return v; }
}
static Mon *M;
enum { N32, N64, U32, U64 };
struct Req { int kind; long n; double a, b; double seed; };
static std::vector<double> run(const Req &q, const std::string &d) {
  int es = q.kind == N32 || q.kind == U32 ? 4 : 8; char *buf = (char *)malloc(q.n * es + !q.n); memset(buf, 0xFF, q.n * es); // NaN pattern
  if (q.kind == N32) get_random_normal_value_f32((float *)buf, q.n, q.a, q.b, q.seed);
  else if (q.kind == N64) get_random_normal_value_f64((double *)buf, q.n, q.a, q.b, q.seed);
  else { int64_t sh[3] = {q.n, 1, 1}; int rank = 1 + q.n % 3; if (q.n % 4 == 0) { sh[0] = q.n / 4; sh[1] = 4; rank = 2; } OMTensor *t = omTensorCreate(buf, sh, rank, q.kind == U32 ? ONNX_TYPE_FLOAT : ONNX_TYPE_DOUBLE); OMTensor *o = run_uniform_random(t, q.a, q.b, q.seed); if (o != t) M->violate("uniform-result", d); omTensorDestroy(t); }
  std::vector<double> v(q.n); for (long i = 0; i < q.n; ++i) { if (es == 4) { float f; memcpy(&f, buf + 4 * i, 4); v[i] = f; } else memcpy(&v[i], buf + 8 * i, 8); }
  free(buf); M->ev(); M->count("elements", q.n); return v;
}
static void oneCase(Rng &r, long idx) {
  std::vector<Req> hist; int n = r.in(2, 7); bool stats = r.chance(1, 4);
  for (int i = 0; i < n; ++i) { Req q; q.kind = r.in(0, 3); q.n = r.chance(1, 10) ? 0 : r.chance(1, 10) ? 1 : r.in(2, 300); if (stats && i == 0) q.n = 20000;
    double mag = pow(10, r.in(-2, 3)); q.a = (float)((r.unit() - 0.5) * mag); q.b = q.kind < U32 ? (float)((r.unit() + 0.01) * mag) : (float)(q.a + (r.unit() + 0.001) * mag);
    q.seed = r.chance(1, 6) ? -(double)r.in(1, 1000) : r.in(1, r.chance(1, 2) ? 100 : 16000000); hist.push_back(q); }
  std::vector<std::vector<double>> first;
  auto name = [](const Req &q) { return fmt("%s n=%ld a=%g b=%g seed=%g", q.kind == N32 ? "normal32" : q.kind == N64 ? "normal64" : q.kind == U32 ? "uniform32" : "uniform64", q.n, q.a, q.b, q.seed); };
  for (auto &q : hist) {
    std::string d = name(q); M->sample(d); auto v = run(q, d); first.push_back(v); M->count(d.substr(0, d.find(' ')));
    double s = 0, s2 = 0, mx = 0; 
    for (double x : v) { if (!std::isfinite(x)) { M->violate("not-finite-or-not-written", d); break; } s += x; s2 += (x - q.a) * (x - q.a);
      if (q.kind >= U32 && (x < q.a || x >= q.b)) { M->violate("uniform-range", d + fmt(" value %.17g", x)); break; } }
    if (q.n > 1000) { double mean = s / q.n, N = q.n; bool nrm = q.kind < U32; double wm = nrm ? q.a : (q.a + q.b) / 2, sd = nrm ? q.b : (q.b - q.a) / sqrt(12.0), var = 0; for (double x : v) var += (x - mean) * (x - mean); var /= N;
      M->count("distribution_tests");
      if (fabs(mean - wm) > 6 * sd / sqrt(N)) M->violate("mean", d + fmt(" mean %g want %g", mean, wm)); if (fabs(sqrt(var) / sd - 1) > 0.05) M->violate("scale", d + fmt(" sd %g want %g", sqrt(var), sd));
      auto w = v; std::sort(w.begin(), w.end()); double ks = 0; for (long i = 0; i < q.n; ++i) { double z = (w[i] - q.a) / (nrm ? q.b : q.b - q.a), F = nrm ? 0.5 * erfc(-z / M_SQRT2) : z; ks = std::max(ks, fabs(F - (i + 0.5) / N)); }
      if (ks > 3.0 / sqrt(N)) M->violate("distribution", d + fmt(" Kolmogorov distance %g", ks));
      auto lag = 0.0; for (long i = 0; i + 1 < q.n; ++i) lag += (v[i] - mean) * (v[i + 1] - mean); lag /= N * var; if (fabs(lag) > 6 / sqrt(N)) M->violate("correlation", d + fmt(" lag-1 %g", lag)); }
    (void)s2; (void)mx;
  }
  // the same requests in another order, interleaved with foreign uses of the generator
  std::vector<size_t> ord(hist.size()); for (size_t i = 0; i < ord.size(); ++i) ord[i] = i; r.shuffle(ord);
  for (size_t i : ord) { int k = r.in(0, 3); for (int j = 0; j < k; ++j) rand(); auto v = run(hist[i], name(hist[i])); M->count("replays"); if (v != first[i]) M->violate("not-reproducible", name(hist[i])); }
  // a shorter request is a prefix of a longer one with the same seed; another seed differs
  { Req q = hist[r.in(0, n - 1)]; if (q.n > 20) { Req o = q; o.seed = q.seed < 0 ? q.seed - 1 : q.seed + 1; if (run(o, name(o)) == run(q, name(q))) M->violate("seeds-not-distinguished", name(q)); M->distinct(hashStr(name(q))); } }
  // extreme generator outputs
  { Req q = hist[r.in(0, n - 1)]; q.n = std::min<long>(q.n, 200); inject = r.in(1, 3); auto v = run(q, name(q)); M->count("injected_extremes"); int was = inject; inject = 0; for (double x : v) if (!std::isfinite(x) || (q.kind >= U32 && (x < q.a || x >= q.b))) { M->violate("extreme-draw", name(q) + fmt(" draw %d gives %.17g", was, x)); break; } }
}
int main(int argc, char **argv) { Mon m; M = &m; m.run("random", atol(argv[1]), oneCase); return m.finish(); }
