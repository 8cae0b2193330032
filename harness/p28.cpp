// P28: what omTensorPrint writes, compared with a rendering of the logical tensor made from scratch.
#include "mon.hpp"
#include "typed.hpp"
#include "OnnxMlirRuntime.h"
using std::string; static Mon *M; static string gInst;
struct T { int type; std::vector<int64_t> shape, strides; int64_t lo = 0; string buf; int64_t base = 0; OMTensor *t = nullptr; std::vector<string> strs; bool dense; char *mem = nullptr; };
static const char *TN[] = {"undefined", "float", "uint8_t", "int8_t", "uint16_t", "int16_t", "int32_t", "int64_t", "const char *", "_Bool", "_Float16", "double", "uint32_t", "uint64_t", "_Complex float", "_Complex double", "bfloat16", "FLOAT8E4M3FN", "FLOAT8E4M3FNUZ", "FLOAT8E5M2", "FLOAT8E5M2FNUZ", "UINT4", "INT4"};
static string elem(const T &x, int64_t off) { const char *p = x.mem + x.base + off * typed::size(x.type); auto as = [&](auto v) { memcpy(&v, p, sizeof v); return v; }; switch (x.type) { case 1: return fmt("%f", (double)as(float())); case 2: return std::to_string((int)as(uint8_t())); case 3: return std::to_string((int)as(int8_t())); case 4: return std::to_string((int)as(uint16_t())); case 5: return std::to_string((int)as(int16_t())); case 6: return std::to_string(as(int32_t())); case 7: return std::to_string((long long)as(int64_t())); case 8: { const char *s = as((const char *)nullptr); return s; } case 9: return *p ? "1" : "0"; case 10: return fmt("%f", (double)typed::f16(as(uint16_t()))); case 11: { double d = as(double()); std::vector<char> b(400); snprintf(b.data(), b.size(), "%f", d); return b.data(); } case 12: return std::to_string(as(uint32_t())); default: return std::to_string((unsigned long long)as(uint64_t())); } }
static void nest(const T &x, size_t d, int64_t off, string &o) { if (d == x.shape.size()) { o += elem(x, off); return; } o += "["; for (int64_t i = 0; i < x.shape[d]; ++i) { if (i) o += ", "; nest(x, d + 1, off + i * x.strides[d], o); } o += "]"; }
static string tname(int t) { return TN[t]; }
static string type(const T &x) { string o; for (auto d : x.shape) o += std::to_string((long)d) + "x"; return o + tname(x.type); }
static string sig(const T &x) { int64_t n = 1; string sh, st; for (auto d : x.shape) { n *= d; sh += "[" + std::to_string((long)d) + "]"; } for (auto d : x.strides) st += "[" + std::to_string((long)d) + "]"; return "\trank = " + std::to_string(x.shape.size()) + "\n\tdataType = " + tname(x.type) + "\n\tnumElems = " + std::to_string((long)n) + "\n\tshape: " + sh + "\n\tstrides: " + st + "\n\ttype: " + type(x) + "\n"; }
static string data(const T &x) { string o = "\tdata: ("; nest(x, 0, 0, o); return o + ")\n"; }
static string render(const string &msg, const T &x) { string o; bool any = false; for (size_t i = 0; i < msg.size(); ++i) { if (msg[i] != '%') { o += msg[i]; continue; } if (i + 1 == msg.size()) return o + "omTensorPrint: orphan `%`, skip.\n"; char c = msg[++i]; if (c == 'd') { o += data(x); any = true; } else if (c == 's') { o += sig(x); any = true; } else if (c == 't') { o += type(x); any = true; } else if (c == 'e') return o; else o += string("omTensorPrint: unknown format `") + c + "`, skip.\n"; } if (!any) o += "\n" + sig(x) + data(x) + "\n"; return o; }
static void make(Rng &r, T &x) {
  x.type = r.chance(1, 7) ? r.in(14, 22) : r.in(1, 13); int rank = r.chance(1, 8) ? 0 : r.in(1, 6); int64_t n = 1; for (int i = 0; i < rank; ++i) { int64_t d = r.chance(1, 14) ? 0 : r.chance(1, 5) ? 1 : r.in(1, rank > 3 ? 4 : 8); if (n * d > 600) d = 1; x.shape.push_back(d); n *= d; } if (rank == 1 && r.chance(1, 10)) { x.shape[0] = r.in(500, 3000); n = x.shape[0]; }
  x.dense = rank == 0 || r.chance(1, 2); x.strides.assign(rank, 1); if (x.dense) { for (int i = rank - 2; i >= 0; --i) x.strides[i] = x.strides[i + 1] * x.shape[i + 1]; }
  else { std::vector<int> perm(rank); for (int i = 0; i < rank; ++i) perm[i] = i; for (int i = rank - 1; i > 0; --i) std::swap(perm[i], perm[r.in(0, i)]); int64_t s = r.chance(1, 4) ? r.in(1, 3) : 1; for (int i : perm) { if (r.chance(1, 8)) { x.strides[i] = 0; continue; } x.strides[i] = s; s *= std::max<int64_t>(1, x.shape[i]) + (r.chance(1, 6) ? r.in(1, 2) : 0); } }
  int64_t need = n ? 1 : 0; if (n) for (int i = 0; i < rank; ++i) need += (x.shape[i] - 1) * x.strides[i]; int w = typed::size(x.type); int64_t pre = r.chance(1, 4) ? r.in(1, 5) : 0; x.base = pre * w; int64_t total = (pre + need) * w; x.mem = new char[total ? total : 1]; memset(x.mem, 0x5a, total); // exactly as long as what is reachable: ASan sees any other read
  if (x.type == 8) { static const char *W[] = {"", "a", "hello world", "%d%s", "[1, 2]", "zażółć", "line\nbreak"}; x.strs.resize(pre + need); for (int64_t i = 0; i < pre + need; ++i) { x.strs[i] = W[r.in(0, 6)]; } for (int64_t i = 0; i < pre + need; ++i) { const char *p = i < pre ? nullptr : x.strs[i].c_str(); memcpy(x.mem + i * 8, &p, 8); } }
  else for (int64_t i = pre; i < pre + need; ++i) { if (x.type == 9) x.mem[i] = r.chance(1, 2); else if (x.type > 13) for (int b = 0; b < w; ++b) x.mem[i * w + b] = (char)r.in(0, 255); else typed::gen(r, x.type, x.mem + i * w, r.in(0, 3), r.chance(1, 10)); }
  x.t = omTensorCreate(x.mem + x.base, x.shape.data(), rank, (OM_DATA_TYPE)x.type); for (int i = 0; i < rank; ++i) const_cast<int64_t *>(omTensorGetStrides(x.t))[i] = x.strides[i]; x.buf.assign(x.mem, total); }
static string message(Rng &r, bool sigOk, bool dataOk) { string m; int n = r.in(0, 6); for (int i = 0; i < n; ++i) switch (r.in(0, 9)) { case 0: m += sigOk ? "%s" : "%d"; break; case 1: case 2: m += "%d"; break; case 3: m += "%t"; break; case 4: m += r.chance(1, 3) ? "%e" : "-"; break; case 5: m += r.chance(1, 3) ? r.pick(std::vector<string>{"%q", "%%", "%D", "% "}) : "x"; break; case 6: m += "name = "; break; case 7: m += "\n"; break; case 8: m += string(r.in(1, 200), 'y'); break; default: m += "tensor [zażółć]"; } if (r.chance(1, 15)) m += "%"; if (!sigOk || !dataOk) m = "%t" + m; if (!dataOk) for (size_t p; (p = m.find("%d")) != string::npos;) m[p + 1] = 't'; return m; }
static string slurp(const string &f) { string s; FILE *h = fopen(f.c_str(), "rb"); if (!h) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, h)) > 0) s.append(b, k); fclose(h); return s; }
static string strip(string s) { static const string H = "==START-REPORT==\n"; for (size_t p; (p = s.find(H)) != string::npos;) s.erase(p, H.size()); return s; }
static void prints(Rng &r, long i) {
  string f = M->tmp + fmt("/out.%d", getpid()); fflush(stdout); int keep = dup(1), fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); string want, seen; int n = r.in(1, 6); string h; std::vector<T> ts(r.in(1, 3)); for (auto &x : ts) make(r, x);
  size_t from = strip(slurp(gInst)).size(); string wantInst; 
  for (int k = 0; k < n; ++k) { T &x = ts[r.in(0, ts.size() - 1)]; bool direct = r.chance(1, 4); string m = message(r, x.dense, x.type < 14); bool inst = r.chance(1, 6); string call = (inst ? "%i" : "") + m; std::unique_ptr<char[]> exact(new char[call.size() + 1]); memcpy(exact.get(), call.c_str(), call.size() + 1); // the message is exactly as long as its text
    if (direct && !inst) { printf("between %d\n", k); want += fmt("between %d\n", k); } omTensorPrint(exact.get(), x.t); string e = render(m, x);
    if (inst && !gInst.empty()) wantInst += e; else want += e; h += fmt("[%s %s] ", m.substr(0, 60).c_str(), type(x).c_str()); M->ev(1 + e.size() / 8); M->count(inst ? "instrument_prints" : "prints"); M->count("characters", e.size()); M->count(x.dense ? "dense" : "strided"); }
  fflush(nullptr); dup2(keep, 1); close(keep); close(fd); seen = strip(slurp(f)); unlink(f.c_str());
  if (seen != want) { size_t p = 0; while (p < seen.size() && p < want.size() && seen[p] == want[p]) ++p; string a = seen.substr(p > 40 ? p - 40 : 0, 120), b = want.substr(p > 40 ? p - 40 : 0, 120); M->violate("text", fmt("after %zu of %zu characters: '", p, want.size()) + a + "' for '" + b + "' in " + h); }
  if (!gInst.empty()) { string g = strip(slurp(gInst)); g = g.size() >= from ? g.substr(from) : ""; if (g != wantInst) M->violate("instrument-text", "'" + g.substr(0, 200) + "' for '" + wantInst.substr(0, 200) + "' in " + h); if (!wantInst.empty()) M->count("instrument_files_checked"); }
  for (auto &x : ts) { if (memcmp(x.mem, x.buf.data(), x.buf.size()) || omTensorGetRank(x.t) != (int64_t)x.shape.size() || !std::equal(x.shape.begin(), x.shape.end(), omTensorGetShape(x.t)) || !std::equal(x.strides.begin(), x.strides.end(), omTensorGetStrides(x.t))) M->violate("altered", h); M->distinct(mixh(mixh(x.type, x.shape.size()), std::hash<string>()(h))); omTensorDestroy(x.t); delete[] x.mem; }
  M->sample(h); }
int main(int argc, char **argv) { Mon m; M = &m; bool c = argc > 2 && !strcmp(argv[2], "c"); if (c && (m.shard + m.seed) % 2) { gInst = m.tmp + fmt("/inst.%ld", (long)m.shard); setenv("ONNX_MLIR_INSTRUMENT_FILE", gInst.c_str(), 1); }
  m.run(c ? "print-c" : "print-cpp", atol(argv[1]), prints); return m.finish(); }
