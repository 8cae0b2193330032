"""What a compiled library says about itself, and the inputs it takes or refuses."""
from main import *
import graphs, json, suites
F, I = np.float32, np.int64
SIG = {np.dtype(t): n for t, n in ((np.float32, "f32"), (np.float64, "f64"), (np.float16, "f16"), (np.bool_, "i1"), (np.int8, "i8"), (np.int16, "i16"), (np.int32, "i32"), (np.int64, "i64"), (np.uint8, "ui8"), (np.uint16, "ui16"), (np.uint32, "ui32"), (np.uint64, "ui64"))}
def sigtype(a):
    a = np.asarray(a)
    return "string" if a.dtype.kind in "OUS" else SIG.get(a.dtype) or {"bfloat16": "bf16", "float8_e4m3fn": "f8E4M3FN", "float8_e4m3fnuz": "f8E4M3FNUZ", "float8_e5m2": "f8E5M2", "float8_e5m2fnuz": "f8E5M2FNUZ"}[a.dtype.name]
ODD = ['a"b', "a\\b", "a b", "@x", "a@b@", " f32 ", "x i64 y", "été", "日本", "a\tb", "a\nb", "%s%d", "{}[],:", "a/b:0", "'", "0", "x" * 300, "\u2028", "a\\u0041", "\\", "\"", "run_main_graph", "dims"]
def rename(b, r):
    """Other names for some inputs and outputs of the model."""
    names = {}; pool = r.sample(ODD, len(ODD))
    for x in [x for x in b.dims] + list(dict.fromkeys(b.outs)):
        if r.random() < .6 and pool: names[x] = pool.pop()
    f = lambda l: [names.get(x, x) for x in l]
    for n in b.nodes:
        i, o = f(n.input), f(n.output); del n.input[:], n.output[:]; n.input.extend(i); n.output.extend(o)
        for a in n.attribute:
            if a.HasField("g") or a.graphs: raise Skip()
    b.vals = {names.get(x, x): v for x, v in b.vals.items()}; b.dims = {names.get(x, x): v for x, v in b.dims.items()}
    b.outs = f(b.outs); b.const = {names.get(x, x) for x in b.const} if isinstance(b.const, set) else b.const; b.cinit = {names.get(x, x) for x in b.cinit}
    return names
def check_sig(text, want, what):
    """want: [(name, type, dims with None where anything or -1 goes)]."""
    try: j = json.loads(text)
    except ValueError as e: raise Fail("signature-not-json", f"{what}: {e}: {text[:200]!r}")
    if not isinstance(j, list) or len(j) != len(want): raise Fail("signature-length", f"{what}: {text[:200]!r}")
    for k, (e, (n, t, dims)) in enumerate(zip(j, want)):
        if not isinstance(e, dict): raise Fail("signature-shape", f"{what} {k}: {e}")
        if e.get("name") != n: raise Fail("signature-name", f"{what} {k}: {e.get('name')!r} instead of {n!r}")
        if t is None: continue
        if e.get("type") != t: raise Fail("signature-type", f"{what} {k}: {e.get('type')!r} instead of {t!r}")
        g = e.get("dims")
        if not isinstance(g, list) or len(g) != len(dims) or any(not isinstance(x, int) for x in g): raise Fail("signature-dims", f"{what} {k}: {g} for {dims}")
        for x, (d, exact) in zip(g, dims):
            if x != d and (exact or x != -1): raise Fail("signature-dims", f"{what} {k}: {g} for {dims}")
def run_sig(b, so, d, arrs=None, tag=None, stem="io"):
    return run_so(so, [b.vals[x] for x in b.dims] if arrs is None else arrs, d, "plain", reps=1, tag=tag, stem=stem)
def describe_self(b, res, tag):
    """Signatures and entry points against the model."""
    dyn = lambda q: isinstance(q, str)
    check_sig(res.isig, [(x, sigtype(b.vals[x]), [(s, not dyn(q)) for q, s in zip(q_, b.vals[x].shape)]) for x, q_ in b.dims.items()], "input signature")
    st = static(b) and not getattr(b, "loose", False) and b.name not in ("Compress", "NonZero", "Unique", "NonMaxSuppression")  # shapes that values decide may stay unknown
    check_sig(res.osig, [(o, None, None) if isinstance(f, (list, tuple)) else (o, sigtype(f), [(s, st) for s in np.shape(f)]) for o, f in zip(b.outs, b.ref)], "output signature")
    for o, f, g in zip(json.loads(res.osig), b.ref, res.outs if res.ok else []):
        if not isinstance(f, (list, tuple)) and any(x not in (-1, y) for x, y in zip(o["dims"], g.shape)): raise Fail("signature-untrue", f"{o} returns {g.shape}")
    if res.bad: raise Fail(f"entry-points-{res.bad}", f"{res.entries} tag {tag}")
    if "run_main_graph" not in res.entries or any(e not in ("run_main_graph", f"run_main_graph_{tag}") for e in res.entries) or len(set(res.entries)) != len(res.entries): raise Fail("entry-points", f"{res.entries} tag {tag}")
def bounds(b, r):
    """Bounds for the inputs that hold for the inputs of the model: options and input lists that exceed them."""
    ins = [b.vals[x] for x in b.dims]; o, opts = [], []
    for opt, sg in (("UB", 1), ("LB", -1)):
        if r.random() < .5: continue
        part = []; used = set()
        def one(ids):
            n = min(ins[k].ndim for k in ids)
            if not n: return
            bd = []
            for j in range(n if r.random() < .7 else r.randint(1, n)):
                m = (max if sg > 0 else min)(ins[k].shape[j] for k in ids); bd.append(-1 if r.random() < .3 or m <= 0 else max(1, m + sg * r.choice([0, 0, 1, 3])))
            if len(ids) == 1 and r.random() < .8 or len(ids) < 1: name = str(ids[0])
            elif ids == list(range(len(ins))) and r.random() < .6: name = "-1"
            else: name = f"{ids[0]}-{ids[-1]}"
            part.append(f"{name}:" + "x".join(map(str, bd))); used.update(ids)
            for k in ids:
                for j, v in enumerate(bd):
                    if v < 0: continue
                    for w in (v + sg, v + 5 * sg if sg > 0 else 0):
                        if w < 0 or sg * (w - v) <= 0: continue
                        t = list(ins[k].shape); t[j] = w; o.append((f"{opt} of dimension {j} of input {k}", [*ins[:k], np.zeros(t, ins[k].dtype), *ins[k + 1:]]))
        if r.random() < .25: one(list(range(len(ins))))
        else:
            for k in r.sample(range(len(ins)), r.randint(1, min(len(ins), 3))):
                if k in used: continue
                one([k] if r.random() < .7 or k + 1 >= len(ins) or k + 1 in used else [k, k + 1])
        if part: opts.append(f"--shapeInformation{opt}=" + ",".join(part))
    return opts, r.sample(o, min(len(o), 3))
def wrong(b, r):
    """Input lists that differ from the declaration in one place: (what, arrays)."""
    ins = [b.vals[x] for x in b.dims]; o = []
    o.append(("one input more", [*ins, np.zeros(2, F)]))
    if ins: o.append(("one input less", ins[:-1])); o.append(("no inputs", []))
    for k, (x, dm) in enumerate(b.dims.items()):
        a = ins[k]; put = lambda v: [*ins[:k], v, *ins[k + 1:]]
        if a.dtype.kind not in "OUS":
            for t in r.sample([np.float32, np.float64, np.int64, np.int32, np.uint8, np.bool_, np.uint32], 3):
                if np.dtype(t) != a.dtype: o.append((f"type {np.dtype(t)} of input {k}", put(np.zeros(a.shape, t))))
            o.append((f"rank of input {k}", put(a.reshape(a.shape + (1,))))); o.append((f"rank of input {k}", put(a.reshape((1,) + a.shape))))
            if a.ndim and a.shape[0] == 1: o.append((f"rank of input {k}", put(a.reshape(a.shape[1:]))))
            for j, q in enumerate(dm):
                if isinstance(q, str): continue
                for n in {a.shape[j] + 1, a.shape[j] - 1, 0, 2 * a.shape[j]} - {a.shape[j]}:
                    if 0 <= n: s = list(a.shape); s[j] = n; o.append((f"dimension {j} of input {k}", put(np.zeros(s, a.dtype))))
    return r.sample(o, min(len(o), 4))
@case
def iface(r, i, d, st):
    """Signatures, entry points and verified inputs."""
    while 1:
        b = st["b"] = suites.anyb(r, 10**6, .6) if r.random() < .8 else ops.make(r)
        if not b.dims or len(b.outs) != len(set(b.outs)) or set(b.outs) & set(b.dims) or any(np.asarray(x).dtype.kind in "OUS" for x in b.ref if not isinstance(x, (list, tuple))): continue
        break
    o = st["opts"] = ["--O" + r.choice("0123"), "--verifyInputTensors"]; tag = None; b.unique = False
    if r.random() < .7:
        try: M.count("odd names", len(rename(b, r)))
        except Skip: pass
    if r.random() < .4:
        tag = r.choice(["abc", "t1", "x_y", "0"]); o.append(f"--tag={tag}")
    elif r.random() < .3: o.append("--tag=NONE")
    over = []
    if r.random() < .5 and not any(a.dtype.kind in "OUS" for a in b.vals.values()): bo, over = bounds(b, r); o += bo
    onnx.save(model(b, declare(b)), os.path.join(d, "m.onnx")); so = os.path.join(d, "m.so")
    link_so([compile_model(os.path.join(d, "m.onnx"), d, o)], so)
    res = run_sig(b, so, d, tag=tag); compare(b, res, b.name); describe_self(b, res, tag or "m")
    for w, arrs in [*wrong(b, r), *over]:
        x = run_sig(b, so, d, arrs, stem="w")
        if x.ok: raise Fail("wrong-input-taken", f"{w}: {[(a.dtype.name, a.shape) for a in arrs]}")
        if x.errno != 22: raise Fail("errno", f"{x.errno} for {w}")
        M.count("refused: " + w.split(" of ")[0])
    seen(b, extra=tuple(o)); M.sample(f"{b.name} {o} {res.isig!r:.150}")
DIMS = ["n", "m", "k", "a,b", "a:b", "0:n", "n,1:m", "", " ", "n=1", "-1", "日", "|"]
@case
def named(r, i, d, st):
    """Dimensions that carry names, some of them equal: broadcasts between inputs whose names say nothing, or the truth."""
    g = np.random.default_rng(r.getrandbits(32)); size = {n: r.randint(2, 4) for n in DIMS}; b = st["b"] = B(r, r.choice([16, 18, 20])); b.name = "named"; b.names = {}
    rank = r.choice([1, 2, 2, 3]); full = [r.choice(DIMS) for _ in range(rank)]; shp = [size[n] for n in full]; b.dims = {}; b.cinit = set()
    free = [n for n in DIMS if n not in full and n]
    def dims(sh):
        o = []
        for j, (s, n, k) in enumerate(zip(sh, full, shp)):
            if j == len(sh) - 1 and s == 1: o.append(1); continue  # a dimension of 1 known only at run time: see fused_broadcast
            v = [None, None, "", *([n] * 4 if s == k else []), *([r.choice(free)] if free and 0 else [])]; o.append(r.choice(v))
        return o
    def inp():
        sh = [k if r.random() < .65 else 1 for k in shp]; x = b.inp(g.uniform(-2, 2, sh).astype(F)); b.dims[x] = dims(sh); return x, sh
    pool = [inp() for _ in range(r.randint(2, 4))]
    for _ in range(r.randint(2, 6)):
        (x, sx), (y, sy) = r.choice(pool), r.choice(pool); k = r.random()
        if k < .5: pool.append((b.op(r.choice(["Add", "Mul", "Sub", "Max"]), x, y), list(np.broadcast_shapes(tuple(sx), tuple(sy)))))
        elif k < .8: pool.append((b.op(r.choice(["Relu", "Neg", "Abs", "Sqrt", "Tanh"][:-2] + ["Tanh"]), x), sx))
        elif k < .9: pool.append((b.op("Concat", x, x, axis=0), None) if 0 else (b.op("Expand", x, b.op("Shape", y)), list(np.broadcast_shapes(tuple(sx), tuple(sy)))))
        else: pool.append((b.op("Where", b.op("Less", x, y), x, y), list(np.broadcast_shapes(tuple(sx), tuple(sy)))))
    outs = [p for p in pool if p[0].startswith("v")]; r.shuffle(outs); outs = outs[:r.randint(1, 4)]
    if not outs: outs = [(b.op("Neg", pool[0][0]), pool[0][1])]
    b.out(*[x for x, _ in outs]); b.ref = reference(b); o = st["opts"] = ["--O" + r.choice("0123")]
    b.declared = {x: (1, dims(sh)) for x, sh in outs}
    compare(b, once(b, d, o, m=model(b, b.declared)), b.name); M.count("named dimensions", sum(isinstance(q, str) for v in [*b.dims.values(), *(v for _, v in b.declared.values())] for q in v))
    seen(b, extra=(str(b.declared),)); M.sample(f"{o} {list(b.dims.values())} -> {list(b.declared.values())} {pieces(b)}")
SUITES = {"iface": iface, "named": named}
