"""Suites over graphs of several operators."""
from main import *
import graphs
O = lambda r: ["--O" + r.choice("0123")]
def plan(names, i):
    """Every generator in turn first, then by weight."""
    return names[i % len(names)] if i < len(names) or "OMF_GG" in os.environ else None
GN = os.environ.get("OMF_GG", "").split() or list(graphs.GG)
@case
def graphs_(r, i, d, st):
    """Graphs around what the rewriting passes look for."""
    b = st["b"] = graphs.make(r, plan(GN, i)); o = st["opts"] = O(r)
    compare(b, once(b, d, o), b.name)
    seen(b); M.sample(f"{b.name} {o} {pieces(b)} -> {[np.shape(x) for x in b.ref]}")
CN = list(graphs.CG); OC = list(ops.GEN)
@case
def consts(r, i, d, st):
    """The same graph with its operands folded at compile time, computed at run time, and folded in part."""
    p = r.random()
    if i < len(CN) or p < .35: b = graphs.make(r, plan(CN, i) or r.choice(CN), graphs.CG)
    elif p < .6: b = graphs.make(r)
    else: b = ops.make(r, names=[OC[(i * 7) % len(OC)]] if r.random() < .6 else None)
    st["b"] = b; o = st["opts"] = O(r)
    free = [x for x in b.vals if x not in b.const and x in b.maybe] ; keep = [x for x in b.vals if x not in b.const and x not in b.maybe]
    how = "all" if getattr(b, "folded", False) else r.choice(["all", "all", "some", "twice"])
    b.cinit = set(b.const) | {x for x in free if how != "some" or r.random() < .6}
    b.dims = {x: b.dims.get(x, list(a.shape)) for x, a in b.vals.items() if x not in b.cinit}
    M.count("folded " + how); M.count("operands constant", len(b.cinit)); M.count("operands at run time", len(b.vals) - len(b.cinit))
    if r.random() < .2 and not getattr(b, "folded", False): o += [f"--onnx-const-prop-expansion-bound={r.choice([0, 1, 2])}"]
    compare(b, once(b, d, o), b.name)
    if how == "twice":
        st["opts"] = o = [*o, "--disable-constant-prop"]; compare(b, once(b, d, o), b.name)
    seen(b, extra=(how,)); M.sample(f"{b.name} {o} {how} {pieces(b)} constant {len(b.cinit)} of {len(b.vals)}")
def anyb(r, i, p=.5):
    """A graph or a single operator."""
    return graphs.make(r, plan(GN, i)) if i < len(GN) or r.random() < p else ops.make(r)
def dimparams(b, r):
    """--dimParams naming equal dynamic dimensions of the inputs alike."""
    o = [f"{k}:" + ",".join(f"{j}=n{b.vals[x].shape[j]}" for j, q in enumerate(d) if isinstance(q, str)) for k, (x, d) in enumerate(b.dims.items()) if any(isinstance(q, str) for q in d)]
    return ["--dimParams=" + "|".join(o)] if o else []
def shapeinfo(b, r):
    """--shapeInformation fixing some of the dynamic dimensions to their values."""
    o = [f"{k}:" + "x".join(str(b.vals[x].shape[j]) if isinstance(q, str) and r.random() < .6 else "-1" if isinstance(q, str) else str(q) for j, q in enumerate(d)) for k, (x, d) in enumerate(b.dims.items()) if d and any(isinstance(q, str) for q in d)]
    return ["--shapeInformation=" + ",".join(o)] if o else []
OPTIONS = {n: (lambda b, r, f=f: f) for n, f in {
    "no fusion": ["--disable-krnl-op-fusion"], "no simd": ["--disable-simd"], "no recompose": ["--disable-recompose"],
    "no constant propagation": ["--disable-constant-prop"], "no conv pass": ["--enable-conv-opt-pass=false"], "no hybrid pass": ["--onnx-hybrid-pass=false"], "no hybrid pass again": ["--onnx-hybrid-pass=false"],
    "no prefetch": ["--disable-memref-prefetch"], "safe code": ["--enable-safe-code-gen"], "bound check": ["--enable-bound-check"], "verify inputs": ["--verifyInputTensors"], "no im2col": ["--disable-conv-to-matmul"],
    "tag": ["--tag=abc"], "keep dead writes": ["--disable-eliminate-write-only-alloc"], "fast math": ["--enable-fast-math"], "constants by file": ["--store-constants-to-file", "--constants-to-file-single-threshold=0", "--constants-to-file-total-threshold=0"],
    "version converter off": ["--invokeOnnxVersionConverter=false"], "own output types": ["--useOnnxModelTypes=false"], "no locations": ["--preserveLocations"], "op stats": ["--onnx-op-stats=TXT"], "timing": ["--enable-timing"], "opt report": ["--opt-report=Simd"],
}.items()}
OPTIONS.update({
    "dim params": dimparams, "shape information": shapeinfo,
    "instrument": lambda b, r: ["--instrument-stage=" + r.choice(["Onnx", "Krnl"] if 0 else ["Onnx"]), "--instrument-ops=" + r.choice(["ALL", "onnx.*", "onnx.Add,onnx.Mul"]), *r.sample(["--InstrumentBeforeOp", "--InstrumentAfterOp", "--InstrumentReportTime", "--InstrumentReportMemory"], 2)],
    "profile": lambda b, r: ["--profile-ir=" + r.choice(["Onnx", "ZHigh"] if 0 else ["Onnx"])],
    "signatures": lambda b, r: ["--instrument-signature=" + r.choice(["ALL", "onnx.*"])],
    "constant propagation pattern off": lambda b, r: ["--onnx-const-prop-disable-pattern=" + ",".join(r.sample(["AddConstProp", "MulConstProp", "TransposeofConst", "AddConstAssociative2", "MulConstAssociative3", "ReshapeofConst", "ConcatofConst", "CastofConst", "SplitOfConst"], 3))],
    "expansion bound": lambda b, r: [f"--onnx-const-prop-expansion-bound={r.choice([0, 1, 2])}"],
    "transform threshold": lambda b, r: [f"--onnx-op-transform-threshold={r.choice([1, 2, 5])}", "--onnx-hybrid-pass=false"], "repeat transform": lambda b, r: [f"--repeatOnnxTransform={r.choice([1, 2])}"],
    "target cpu": lambda b, r: ["--march=x86-64"],
})
ON = list(OPTIONS)
def reparse(b, d, o, stage, m=None, stem="m"):
    """Compiles in two steps through the printed form of an intermediate stage."""
    onnx.save(m or model(b, declare(b)), os.path.join(d, stem + ".onnx"))
    rc, t = sh([OMC, f"--Emit{stage}", *o, os.path.join(d, stem + ".onnx"), "-o", os.path.join(d, stem + "s")], cwd=d)
    if rc != 0: raise Fail("compile-error" if isinstance(rc, int) and 0 < rc < 128 else "compiler-crash:" + crash_name(rc, t), f"first step {diag(t)}")
    f = [os.path.join(d, x) for x in (stem + "s.onnx.mlir", stem + "s.mlir") if os.path.exists(os.path.join(d, x))]
    if not f: raise Fail("no-intermediate", str(os.listdir(d)))
    so = os.path.join(d, stem + ".so"); link_so([compile_model(f[0], d, o, stem=stem)], so)
    return run_so(so, [b.vals[x] for x in b.dims], d, "plain", reps=2)
@case
def options(r, i, d, st):
    """The same model under other options, or compiled in two steps, still means the same."""
    b = st["b"] = anyb(r, i); o = st["opts"] = O(r); p = r.random(); ch = []
    if i >= len(ON) and p < .15:
        s = r.choice(["ONNXBasic", "ONNXIR"]); ch = ["through " + s]; st["opts"] = [*o, *ch]; compare(b, reparse(b, d, o, s), b.name)
    else:
        ch = [ON[i]] if i < len(ON) else r.sample(ON, r.choice([1, 1, 2, 3, 5]))
        for c in ch: o += OPTIONS[c](b, r)
        o[:] = list(dict.fromkeys(o))
        try: compare(b, once(b, d, o), b.name)
        except Fail as e:
            if not (e.key.endswith("status_-6") and "bound check" in ch): raise
            M.count("bound check of the installed MLIR aborts")
    for c in ch: M.count("option " + c)
    seen(b, extra=ch); M.sample(f"{b.name} {o} {ch} {pieces(b)}")
@case
def memory(r, i, d, st):
    """Generated code instrumented by the address or the memory sanitizer."""
    b = st["b"] = ops.make(r, names=[OC[(i * 3) % len(OC)]]) if r.random() < .55 else graphs.make(r)
    if any(isinstance(x, (list, tuple)) for x in b.ref): return
    s = r.choice(["asan", "asan", "msan"]); o = st["opts"] = O(r)
    if r.random() < .25: o += r.choice([["--disable-krnl-op-fusion"], ["--disable-simd"]])
    compare(b, once(b, d, o, s, reps=2), b.name)
    M.count("sanitizer " + s); seen(b, extra=(s,)); M.sample(f"{b.name} {s} {o} {pieces(b)}")
SUITES = {"graphs": graphs_, "consts": consts, "options": options, "memory": memory}
