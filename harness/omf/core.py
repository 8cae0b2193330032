"""Random ONNX models: built, compiled with onnx-mlir, run, and judged by the ONNX reference evaluator."""
import os, re, struct, subprocess, sys, shutil, time, json
import numpy as np, onnx, ml_dtypes
from onnx import helper as oh, numpy_helper as nh, TensorProto as T
from onnx.reference import ReferenceEvaluator
E = os.environ
OMC, CC, OPT = E.get("OMF_OMC", ""), "/usr/bin/clang", "/usr/lib/llvm-20/bin"
class Skip(Exception): pass
NP2OM = {np.dtype(k): v for k, v in {"float32": 1, "uint8": 2, "int8": 3, "uint16": 4, "int16": 5, "int32": 6, "int64": 7, "bool": 9, "float16": 10, "float64": 11, "uint32": 12, "uint64": 13}.items()}
OM2NP = {v: k for k, v in NP2OM.items()}
OM2NP[16] = np.dtype(ml_dtypes.bfloat16); NP2OM[np.dtype(ml_dtypes.bfloat16)] = 16
def ot(d): return oh.np_dtype_to_tensor_dtype(np.dtype(d)) if np.dtype(d).kind not in "OUS" else T.STRING

class B:
    """A graph under construction."""
    unique = False
    def __init__(s, r, opset=None):
        s.r, s.nodes, s.vals, s.const, s.maybe, s.nodyn, s.dims, s.outs, s.n = r, [], {}, set(), set(), {}, {}, [], 0
        s.opset = opset or r.choice([13, 16, 17, 18, 19, 19, 20, 21, 22])
        s.tol = (1e-4, 1e-5); s.extra = []; s.check = None; s.out_types = {}; s.name = ""; s.seed_tensors = []; s.ties = None
    def nm(s, p="t"): s.n += 1; return f"{p}{s.n}"
    def inp(s, a, const=None, dyn=True):
        """A model input (const: None = maybe an initializer; True = always; False = never)."""
        x = s.nm("x"); s.vals[x] = np.asarray(a)
        if const is True or getattr(s, "folded", False): s.const.add(x)
        elif const is None: s.maybe.add(x)
        if dyn is not True: s.nodyn[x] = set(range(np.asarray(a).ndim)) if dyn is False else set(dyn)
        return x
    def op(s, t, *ins, n=1, **at):
        o = [s.nm("v") for _ in range(n)]
        at = {k: v for k, v in at.items() if v is not None}
        dom = at.pop("domain", "")
        s.nodes.append(oh.make_node(t, [i or "" for i in ins], o, name=f"n{s.n if s.unique else len(s.nodes)}", domain=dom, **at))
        return o[0] if n == 1 else o
    def out(s, *o): s.outs += o

def finish(b):
    """Fixes the choices the case leaves open."""
    r = b.r
    b.cinit = set(b.const) | {x for x in sorted(b.maybe) if r.random() < .25}
    ins = [x for x in b.vals if x not in b.cinit]
    mode = r.random()
    sym = r.random() < .5
    for x in ins:
        a = b.vals[x]
        d = []
        for i, k in enumerate(a.shape):
            dy = (mode > .7 or (mode > .4 and r.random() < .4)) and i not in b.nodyn.get(x, ())
            d.append((f"d{k}" if sym else f"{x}_{i}") if dy else int(k))
        b.dims[x] = d
    return b
def model(b, outs_info=None, static=False, inits=None, opset=None):
    inits = b.cinit if inits is None else inits
    gi = [oh.make_tensor_value_info(x, ot(b.vals[x].dtype), list(b.vals[x].shape) if static else b.dims[x]) for x in b.vals if x not in inits]
    init = [nh.from_array(b.vals[x], x) for x in b.vals if x in inits]
    go = []
    for o in b.outs:
        if outs_info and o in outs_info: go.append(oh.make_tensor_value_info(o, *outs_info[o]))
        elif o in b.out_types: go.append(oh.make_value_info(o, b.out_types[o]))
        else: go.append(onnx.ValueInfoProto(name=o))
    g = oh.make_graph(b.nodes, "g", gi, go, init)
    m = oh.make_model(g, opset_imports=[oh.make_opsetid("", opset or b.opset), *b.extra], ir_version=8)
    return m
def reference(b):
    m = model(b, static=True, inits=set(b.const))
    if b.check: return b.check(b)
    with np.errstate(all="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ReferenceEvaluator(m).run(None, {x: a for x, a in b.vals.items() if x not in b.const})
def out_info(b, ref, static):
    d = {}
    for o, a in zip(b.outs, ref):
        if isinstance(a, (list, tuple)): continue
        a = np.asarray(a)
        if static: d[o] = (ot(a.dtype), list(a.shape))
        else: d[o] = (ot(a.dtype), [f"{o}_{i}" for i in range(a.ndim)])
    return d

def sh(cmd, timeout=120, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired: return "timeout", ""
class Fail(Exception):
    def __init__(s, key, detail): s.key, s.detail = key, detail
def crash_name(rc, text):
    m = re.search(r"Assertion `(.{0,90})", text) or re.search(r"^(?:LLVM ERROR:|UNREACHABLE executed)(.{0,90})", text, re.M) or re.search(r"SUMMARY: (\w+: \S+)", text)
    w = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).strip() if m else f"status {rc}"
    return re.sub(r"\s+", "_", w)
def diag(text):
    text = "\n".join(x for x in text.splitlines() if not x.startswith(("Duplicated onnx_node_name", "Constants in the model exceed")))
    l = [x for x in text.splitlines() if "error" in x.lower()] or [x for x in text.splitlines() if "failed to" in x]
    return (l[0] if l else text.strip().splitlines()[-1] if text.strip() else "")[:300]
SAN = {"asan": "address", "msan": "memory", "tsan": "thread"}
def link_so(objs, so, cc_flags=()):
    rc, t = sh(["ld.bfd" if 0 else "ld", "-shared", *objs, "-o", so])
    if rc != 0: raise Fail("link", t[-500:])
def compile_model(path, d, opts, san=None, stem="m"):
    """Compiles path, returns the library. san: instrument the generated code."""
    base = os.path.join(d, stem)
    cmd = [OMC, "--EmitObj", *(["--preserveBitcode"] if san else []), *opts, path, "-o", base]
    rc, t = sh(cmd, timeout=240, cwd=d)
    if rc == "timeout": raise Fail("compile-hangs", " ".join(opts))
    if rc != 0:
        if isinstance(rc, int) and (rc < 0 or rc >= 128 or "Assertion" in t or "UNREACHABLE" in t): raise Fail("compiler-crash:" + crash_name(rc, t), t[-700:])
        raise Fail("compile-error", diag(t))
    o = base + ".o"
    if san:
        bc = base + (".unoptimized.bc" if os.path.exists(base + ".unoptimized.bc") else ".bc")
        rc, ll = sh([f"{OPT}/llvm-dis", bc, "-o", "-"])
        if rc != 0: raise Fail("llvm-dis", ll[-300:])
        ll = re.sub(r"^(define .*?\))( #\d+)?((?: !dbg !\d+)? \{)$", lambda m: f"{m.group(1)}{m.group(2) or ''} sanitize_{SAN[san]} nobuiltin{m.group(3)}" if 0 else f"{m.group(1)}{m.group(2) or ''} sanitize_{SAN[san]}{m.group(3)}", ll, flags=re.M)
        open(base + ".ll", "w").write(ll)
        o = base + ".s.o"
        rc, t = sh([f"{OPT}/opt", f"-passes={dict(asan='asan', msan='msan', tsan='tsan-module,function(tsan)')[san]}", base + ".ll", "-o", base + ".s.bc"])
        if rc != 0: raise Fail("opt", t[-300:])
        rc, t = sh([f"{OPT}/llc", "-O1", "--relocation-model=pic", "-filetype=obj", base + ".s.bc", "-o", o])
        if rc != 0: raise Fail("llc", t[-300:])
    return o
def pack(arrs):
    o = [struct.pack("<q", len(arrs))]
    for a in arrs:
        a = np.asarray(a)
        if a.dtype.kind in "OUS":
            raw = b"".join(str(x).encode() + b"\0" for x in a.ravel()); dt = 8
        else: raw = np.ascontiguousarray(a).tobytes(); dt = NP2OM[a.dtype]
        o.append(struct.pack(f"<{2 + a.ndim}q", dt, a.ndim, *a.shape)); o.append(struct.pack("<q", len(raw))); o.append(raw)
    return b"".join(o)
class Res: pass
def unpack(buf):
    p = 0
    def i():
        nonlocal p
        v = struct.unpack_from("<q", buf, p)[0]; p += 8
        return v
    r = Res()
    k = i(); r.isig = buf[p:p + k].decode("utf-8", "replace"); p += k
    k = i(); r.osig = buf[p:p + k].decode("utf-8", "replace"); p += k
    r.entries = []
    for _ in range(i()): k = i(); r.entries.append(buf[p:p + k].decode("utf-8", "replace")); p += k
    r.bad, r.changed, r.differ, r.ok = i(), i(), i(), i()
    if not r.ok: r.errno = i(); return r
    r.outs, r.dense = [], []
    for _ in range(i()):
        dt, rk = i(), i(); sh = [i() for _ in range(rk)]; r.dense.append(i()); n = i()
        raw = buf[p:p + n]; p += n
        if dt == 8: a = np.array([x.decode() for x in raw.split(b"\0")[:-1]], object).reshape(sh)
        elif dt not in OM2NP: raise Fail("output-type", f"type {dt}")
        else: a = np.frombuffer(raw, OM2NP[dt]).reshape(sh)
        r.outs.append(a)
    return r
def run_so(so, arrs, d, kind, reps=1, threads=1, timeout=120, stem="io", tag=None, alt=None):
    i, o = os.path.join(d, stem + ".in"), os.path.join(d, stem + ".out")
    open(i, "wb").write(pack(arrs))
    if os.path.exists(o): os.unlink(o)
    rc, t = sh([E[f"OMF_RUN_{kind}"], so, i, o, str(reps), str(threads)], timeout=timeout, env={**E, "OM_CONSTANT_PATH": d, **({"OMF_TAG": tag} if tag else {}), **({"OMF_ALT": alt} if alt else {})}, cwd=d)
    if rc == "timeout": raise Fail("model-hangs", "")
    if rc != 0:
        m = re.search(r"SUMMARY: (\w+)Sanitizer: (\S+)", t)
        if m: raise Fail(f"sanitizer:{m.group(1)}:{m.group(2)}", t[:900])
        raise Fail(f"model-dies:{crash_name(rc, t)}", t[-500:])
    return unpack(open(o, "rb").read())
def same(got, ref, tol):
    got, ref = np.asarray(got), np.asarray(ref)
    if got.shape != ref.shape: return f"shape {got.shape} instead of {ref.shape}"
    if got.dtype != ref.dtype and not (got.dtype.kind in "OUS" and ref.dtype.kind in "OUS"): return f"type {got.dtype} instead of {ref.dtype}"
    if ref.dtype.kind in "OUS" or ref.dtype.kind in "iub" and not tol[2:]:
        w = np.argwhere(got != ref)
    else:
        g, f = got.astype(np.float64), ref.astype(np.float64)
        with np.errstate(all="ignore"):
            ok = (np.abs(g - f) <= tol[1] + tol[0] * np.abs(f)) | (g == f) | (np.isnan(g) & np.isnan(f))
        w = np.argwhere(~ok)
    if len(w):
        k = tuple(w[0])
        return f"{len(w)} of {ref.size} elements, at {list(map(int, k))} {got[k]!r} instead of {ref[k]!r}"
    return None
def describe(m, vals):
    try: t = onnx.printer.to_text(m)
    except Exception: t = str(m)
    t = re.sub(r"\s+", " ", t)[:700]
    return t + " inputs " + "; ".join(f"{k}={np.array2string(np.asarray(v).ravel()[:8], threshold=8)}{list(np.asarray(v).shape)}" for k, v in vals)[:400]
