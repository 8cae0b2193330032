"""Models with custom operators, whose functions are written for the case: they check what they are called with and compute something simple."""
from main import *
import random as rnd
F, I = np.float32, np.int64
CT = {np.dtype(F): "float", np.dtype(np.float64): "double", np.dtype(np.int32): "int32_t", np.dtype(I): "int64_t", np.dtype(np.bool_): "uint8_t", np.dtype(np.uint8): "uint8_t", np.dtype(np.int8): "int8_t", np.dtype(np.int16): "int16_t", np.dtype(np.uint16): "uint16_t", np.dtype(np.uint32): "uint32_t", np.dtype(np.uint64): "uint64_t"}
TYPES = list(CT)
HEAD = r'''
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
typedef struct OMTensor OMTensor;
void *omTensorGetDataPtr(const OMTensor *); const int64_t *omTensorGetShape(const OMTensor *); const int64_t *omTensorGetStrides(const OMTensor *);
int64_t omTensorGetRank(const OMTensor *); int omTensorGetDataType(const OMTensor *); int64_t omTensorGetNumElems(const OMTensor *);
static void bad(const char *f, const char *what) { fprintf(stderr, "CUSTOM-CALL %s %s\n", f, what); fflush(stderr); abort(); }
static void tensor(const char *f, const char *w, const OMTensor *t, int type, int rank) {
  if (!t) bad(f, w);
  if (omTensorGetDataType(t) != type) bad(f, "type");
  if (omTensorGetRank(t) != rank) bad(f, "rank");
  int64_t n = 1;
  for (int i = rank - 1; i >= 0; i--) { if (omTensorGetShape(t)[i] < 0) bad(f, "dimension"); if (omTensorGetShape(t)[i] > 1 && omTensorGetStrides(t)[i] != n) bad(f, "stride"); n *= omTensorGetShape(t)[i]; }
  if (n && !omTensorGetDataPtr(t)) bad(f, "no data");
}
static int64_t at(const OMTensor *o, const OMTensor *x, int64_t i) { /* element of x that broadcasts to element i of o, or the one at i modulo */
  int ro = omTensorGetRank(o), rx = omTensorGetRank(x); const int64_t *so = omTensorGetShape(o), *sx = omTensorGetShape(x);
  int ok = rx <= ro; for (int k = 0; ok && k < rx; k++) ok = sx[rx - 1 - k] == 1 || sx[rx - 1 - k] == so[ro - 1 - k];
  if (!ok) { int64_t n = omTensorGetNumElems(x); return n ? i % n : -1; }
  int64_t r = 0, m = 1; for (int k = 0; k < ro; k++) { int64_t d = i % so[ro - 1 - k]; i /= so[ro - 1 - k]; if (k < rx) { r += (sx[rx - 1 - k] == 1 ? 0 : d) * m; m *= sx[rx - 1 - k]; } }
  return r;
}
'''
def cstr(s): return '"' + "".join(f"\\{c:03o}" for c in s.encode()) + '"'
def compute(ins, k0, shape, dt):
    """What the C function computes."""
    n = int(np.prod(shape)); acc = np.full(n, float(k0))
    for k, x in enumerate(ins):
        x = np.asarray(x)
        ok = x.ndim <= len(shape) and all(p == 1 or p == q for p, q in zip(x.shape[::-1], shape[::-1]))
        v = np.broadcast_to(x, shape).ravel() if ok else (x.ravel()[np.arange(n) % x.size] if x.size else np.full(n, 7.))
        acc = acc + v.astype(np.float64) * (k + 1)
    acc = acc.reshape(shape)
    return (acc % 2 == 1) if dt == np.bool_ else (np.abs(acc) % 100).astype(dt)
def function(name, ins, outs, attrs, domain, k0, node):
    args = [f"OMTensor *o{k}" for k in range(len(outs))] + [f"OMTensor *x{k}" for k in range(len(ins))]
    body = [f'tensor("{name}", "no output {k}", o{k}, {ot(a.dtype)}, {a.ndim});' for k, a in enumerate(outs)] + [f'tensor("{name}", "no input {k}", x{k}, {ot(a.dtype)}, {a.ndim});' for k, a in enumerate(ins)]
    al = {**attrs, "domain_name": domain}
    al["onnx_node_name"] = node
    for n in sorted(al):
        v = al[n]
        if v is None: args.append(f"const char *a_{n}"); body.append(f'if (!a_{n}) bad("{name}", "name");')
        elif isinstance(v, str): args.append(f"const char *a_{n}"); body.append(f'if (!a_{n} || strcmp(a_{n}, {cstr(v)})) bad("{name}", "string attribute {n}");')
        elif isinstance(v, int): args.append(f"int64_t a_{n}"); body.append(f'if (a_{n} != INT64_C({v}){"" if v > -2**63 else ""}) bad("{name}", "integer attribute {n}");' if v != -2**63 else f'if (a_{n} != INT64_MIN) bad("{name}", "integer attribute {n}");')
        else: args.append(f"double a_{n}"); body.append(f'if (a_{n} != (double)({float(np.float32(v)).hex()})) bad("{name}", "float attribute {n}");')
    for k, a in enumerate(outs):
        ct = CT[a.dtype]
        s = " ".join(f"{{ int64_t j = at(o{k}, x{q}, i); v += (j < 0 ? 7. : (double)(({CT[x.dtype]} *)omTensorGetDataPtr(x{q}))[j]) * {q + 1}; }}" for q, x in enumerate(ins))
        e = "(fmod(v, 2) == 1 || fmod(v, 2) == -1)" if a.dtype == np.bool_ else "fmod(fabs(v), 100)"
        body.append(f"for (int64_t i = 0, n = omTensorGetNumElems(o{k}); i < n; i++) {{ double v = {k0 + k}; {s} (({ct} *)omTensorGetDataPtr(o{k}))[i] = ({ct}){e}; }}")
    return f"void {name}({', '.join(args)}) {{\n  " + "\n  ".join(body) + "\n}\n"
def arr(r, s, dt):
    g = np.random.default_rng(r.getrandbits(32))
    return g.integers(0, 2, s).astype(dt) if dt == np.bool_ else g.integers(0 if dt.kind == "u" else -9, 10, s).astype(dt)
@case
def custom(r, i, d, st):
    """Custom operators between ordinary ones."""
    b = st["b"] = B(r, r.choice([14, 16, 18, 20])); b.name = "custom"; b.v = {}; src = []; dom = r.choice(["test.custom", "com.example", "x"]); b.dims = {}; b.cinit = set()
    b.extra = [oh.make_opsetid(dom, 1)]; infos = {}
    def inp(a, dyn=None):
        x = b.inp(a, const=r.random() < .2); b.v[x] = a
        if x in b.const: b.cinit.add(x)
        else: b.dims[x] = [f"{x}_{j}" if (r.random() < .4 if dyn is None else dyn) else q for j, q in enumerate(a.shape)]
        return x
    full = [r.choice([1, 2, 3, 4, 5]) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]; pool = []
    def operand():
        if pool and r.random() < .6: return r.choice(pool)
        s = full if r.random() < .6 else [1 if r.random() < .4 else q for q in full][r.randint(0, len(full)):] if r.random() < .6 else [r.randint(1, 4) for _ in range(r.randint(0, 3))]
        x = inp(arr(r, s, r.choice(TYPES))); return x
    funs = []
    for c in range(r.randint(1, 3)):
        ins = [operand() for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]; vs = [b.v[x] for x in ins]; pat = r.choice(["SameAs", "MDBroadcast"]); at = {}; ifi = None
        if pat == "SameAs": k = r.randrange(len(ins)); ifi = [k] if k or r.random() < .5 else None; shp = [list(vs[k].shape)]; dts = [vs[k].dtype]
        elif pat == "MDBroadcast":
            ks = sorted(r.sample(range(len(ins)), r.randint(1, len(ins))))
            if len(ks) == len(ins) and r.random() < .6: ifi = None
            else: ifi = ks
            try: shp = [list(np.broadcast_shapes(*[vs[k].shape for k in ks]))]
            except ValueError: raise Skip()
            dts = [vs[ks[0]].dtype]
            if len(shp[0]) and any(isinstance(q, str) for k in ks for q in (b.dims.get(ins[k]) or ["?"])): pass
        else:
            no = r.choice([1, 1, 2, 3]); shp = [[r.randint(1, 4) for _ in range(r.randint(0, 3))] if r.random() < .6 else list(full) for _ in range(no)]; dts = [r.choice(TYPES) for _ in range(no)]
        for n in r.sample(["alpha", "zeta", "Beta", "k", "mode_", "eps", "number", "p_q"], r.randint(0, 4)):
            at[n] = r.choice([r.choice(["", "text", "ü€ \"q\" \\n %d", "a" * 200, "text"]), r.choice([0, 1, -1, 2**31, -2**63, 2**63 - 1, r.randint(-99, 99)]), r.choice([0.0, .1, -1.5, 1e30, 3.0])])
        user = {k: v for k, v in at.items()}
        if pat: at["shape_infer_pattern"] = pat
        if ifi is not None: at["inputs_for_infer"] = ifi
        name = f"cust_{c}"; k0 = r.randint(0, 9); node = r.choice([None, f"the {c}. node", f"c{c}"])
        outs = [compute(vs, k0 + k, s, t) for k, (s, t) in enumerate(zip(shp, dts))]
        os_ = b.op(name, *ins, n=len(outs), **at); os_ = [os_] if isinstance(os_, str) else list(os_)
        nd = b.nodes[-1]; nd.domain = dom; nd.name = node or ""
        src.append((name, vs, outs, user, k0, node)); funs.append(name)
        for o, a in zip(os_, outs):
            b.v[o] = np.asarray(a); infos[o] = (ot(a.dtype), list(a.shape)) if dts[0] != vs[0].dtype or r.random() < .3 else None; pool.append(o)
            if r.random() < .5 and a.dtype in (F, np.float64, np.int32, I):
                y = b.op("Neg" if r.random() < .5 else "Abs", o) if r.random() < .5 or not a.ndim else b.op("Transpose", o, perm=list(range(a.ndim))[::-1])
                n = b.nodes[-1]; b.v[y] = -a if n.op_type == "Neg" else np.abs(a) if n.op_type == "Abs" else np.ascontiguousarray(a.transpose()); pool.append(y)
    outs = [x for x in pool if x.startswith("v")]; want = r.sample(outs, r.randint(1, len(outs)))
    b.out(*want); b.ref = [b.v[x] for x in b.outs]
    if not b.dims: raise Skip()
    b.declared = {o: (ot(b.v[o].dtype), list(b.v[o].shape)) for o in b.outs}
    m = model(b, b.declared)
    for o, f in infos.items():
        if f and o not in b.outs: m.graph.value_info.append(oh.make_tensor_value_info(o, *f))
    o = st["opts"] = ["--O" + r.choice("0123")]; san = "asan" if r.random() < .2 else None
    pth = os.path.join(d, "m.onnx"); onnx.save(m, pth)
    # names the importer gives to nodes without one are not promised: those functions take whatever comes
    obj_ = compile_model(pth, d, o, san)
    c = HEAD
    for name, vs, os2, user, k0, node in src: c += function(name, vs, os2, user, dom, k0, node)
    open(os.path.join(d, "f.c"), "w").write(c)
    rc, t = sh(["clang", "-w", "-O1", "-fPIC", *(["-fsanitize=address"] if san else []), "-c", os.path.join(d, "f.c"), "-o", os.path.join(d, "f.o")])
    if rc: raise RuntimeError(t[-800:])
    so = os.path.join(d, "m.so"); link_so([obj_, os.path.join(d, "f.o")], so)
    res = run_so(so, [b.vals[x] for x in b.dims], d, san or "plain", reps=2)
    compare(b, res, b.name); M.count("custom calls", len(src)); M.count("custom attributes", sum(len(s[3]) for s in src))
    seen(b, extra=(str([(s[3], [x.shape for x in s[1]]) for s in src]),)); M.sample(f"{o} {pieces(b)} {src[0][3]!r:.120}")
SUITES = {"custom": custom}
