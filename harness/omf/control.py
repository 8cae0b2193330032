"""Models with branches, loops, scans and sequences."""
from main import *
KINDS = ["if", "loop", "scan", "nest", "count"]
F, I = np.float32, np.int64
UN = ["Neg", "Abs", "Tanh", "Sigmoid", "Relu", "Identity", "Erf"]
class Sub:
    """Builds subgraphs in place: nodes go to the innermost graph, values of the outer ones may be captured."""
    def __init__(s, b, r): s.b, s.r, s.uniq = b, r, 0
    def nm(s, p): s.uniq += 1; return f"{p}_{s.uniq}"
    def graph(s, ins, f):
        """ins: [(name, type, shape)], f() -> [(output, type, shape)]."""
        keep, s.b.nodes = s.b.nodes, type(s.b.nodes)()
        outs = f()
        # A graph output must be computed inside.
        outs = [(s.b.op("Identity", o), t, h) if not any(o in n.output for n in s.b.nodes) or [x[0] for x in outs].count(o) > 1 else (o, t, h) for o, t, h in outs]
        vi = lambda l: [oh.make_tensor_value_info(n, t, [None] * len(h) if s.dyn else h) if t is not None else onnx.ValueInfoProto(name=n) for n, t, h in l]
        g = oh.make_graph(s.b.nodes, s.nm("body"), vi(ins), vi(outs)); s.b.nodes = keep
        return g
    def const(s, a): return s.b.op("Constant", value=nh.from_array(np.asarray(a)))
    def fl(s, *sh): return s.const(np.round(np.random.default_rng(s.r.getrandbits(32)).uniform(-1.5, 1.5, sh), 3).astype(F))
    def step(s, pool, sh, depth):
        b, r = s.b, s.r; x = lambda: r.choice(pool); k = r.randrange(13)
        if k < 3: return b.op(r.choice(UN), x())
        if k < 6: return b.op(r.choice(["Add", "Sub", "Mul", "Max", "Min"]), x(), x())
        if k == 6: return b.op(r.choice(["Add", "Mul"]), x(), s.fl(*r.choice([(), (1,), sh, sh[-1:]])))
        if k == 7: return b.op("Mul", x(), b.op("ReduceMean", x(), keepdims=1) if b.opset >= 18 else b.op("ReduceMean", x(), axes=[r.randrange(len(sh))], keepdims=1))
        if k == 8: return b.op("Where", b.op(r.choice(["Less", "Greater"]), x(), s.fl(1)), x(), x())
        if k == 9 and sh[0] > 1:
            y = x(); c = lambda *v: s.const(np.array(v, I)); m = r.randrange(1, sh[0])
            return b.op("Concat", b.op("Slice", y, c(m), c(sh[0]), c(0)), b.op("Slice", y, c(0), c(m), c(0)), axis=0)
        if k == 10 and len(sh) == 2: return b.op("Tanh", b.op("MatMul", x(), s.fl(sh[1], sh[1])))
        if k == 11 and depth > 0: return r.choice([s.if_, s.loop, s.scan] if not s.branch else [s.if_])(pool, sh, depth - 1)[0]
        return b.op(r.choice(UN), b.op("Sub", x(), x()))
    def expr(s, pool, sh, depth, n=None):
        p = list(pool)
        if n is None and s.inner and s.r.random() < .12: return s.raw(pool, sh)
        for _ in range(n or s.r.randint(1, 4)): p.append(s.step(p, sh, depth))
        return s.b.op("Tanh", p[-1]) if s.r.random() < .3 else s.b.op("Clip", p[-1], s.const(np.array(-4, F)), s.const(np.array(4, F)))
    def raw(s, pool, sh):
        """A value as it is, or seen in another shape and back: no computation of its own."""
        b, r = s.b, s.r; x = r.choice(pool); k = r.randrange(4)
        if k == 0: return x
        if k == 1: return b.op("Identity", x)
        if k == 2: return b.op("Reshape", b.op("Reshape", x, s.const(np.array([-1], I))), s.const(np.array(sh, I)))
        a = s.const(np.array([0], I)); return b.op("Squeeze", b.op("Unsqueeze", x, a), a)
    def cond(s, pool):
        b, r = s.b, s.r; k = r.randrange(4)
        if k == 0: return b.inp(np.array(r.random() < .5)) if not s.inner else s.const(np.array(r.random() < .5))
        if k == 1: return s.const(np.array(r.random() < .5))
        q = b.op("ReduceMax" if r.random() < .5 else "ReduceSum", r.choice(pool), keepdims=0); c = b.op(r.choice(["Less", "Greater"]), q, s.const(np.array(r.uniform(-1, 1), F)))
        return c if k == 2 else b.op("Not", c)
    inner = branch = dyn = 0
    def nested(s, f, branch=0):
        s.inner += 1; s.branch += branch
        try: return f()
        finally: s.inner -= 1; s.branch -= branch
    def if_(s, pool, sh, depth):
        c = s.cond(pool); n = s.r.choice([1, 1, 2]); typed = (1, list(sh)) if s.r.random() < .5 else (None, None)
        mk = lambda: s.graph([], lambda: s.nested(lambda: [(s.expr(pool, sh, depth), *typed) for _ in range(n)], 1))
        o = s.b.op("If", c, n=n, then_branch=mk(), else_branch=mk())
        return [o] if n == 1 else o
    def loop(s, pool, sh, depth, scans=0):
        """A loop over carried values of shape sh; scans: scan outputs besides."""
        b, r = s.b, s.r; k = r.randint(1, 3); trips = r.randint(1 if scans else 0, 5); how = r.choice(["for", "for", *([] if scans or s.dyn else ["while", "both"])])
        it, ci = s.nm("iter"), s.nm("cond"); st = [s.nm("state") for _ in range(k)]; lim = s.const(np.array(trips - 1 if trips else 0, I))
        def f():
            fi = b.op("Cast", it, to=1); p = [*pool, *st]; nx = [s.expr([*p, b.op("Add", r.choice(p), fi)] if r.random() < .5 else p, sh, depth) for _ in st] if r.random() < .75 else [s.raw(st, sh) for _ in st]
            sc = [s.expr([*st, *nx], sh, depth) if r.random() < .7 else s.raw([*st, *nx], sh) for _ in range(scans)]
            co = b.op("Less", it, lim) if how != "for" else b.op("Identity", ci)
            return [(co, 9, []), *[(x, 1, list(sh)) for x in nx], *[(x, 1, list(sh)) for x in sc]]
        g = s.graph([(it, 7, []), (ci, 9, []), *[(x, 1, list(sh)) for x in st]], lambda: s.nested(f))
        m = "" if how == "while" and trips else (s.const(np.array(trips, I)) if s.inner or r.random() < .5 else b.inp(np.array(trips, I), const=None)) if how == "for" or not trips else s.const(np.array(trips + r.randint(0, 2), I))
        c0 = "" if r.random() < .3 and how == "for" else s.const(np.array(True)) if s.inner or r.random() < .6 else b.inp(np.array(True))
        o = b.op("Loop", m, c0, *[r.choice(pool) for _ in st], n=k + scans, body=g)
        return [o] if k + scans == 1 else o
    def scan(s, pool, sh, depth, scans=0):
        b, r = s.b, s.r; k = r.randint(1, 3); n = r.randint(1, 2); L = r.randint(1, 4)
        st = [s.nm("state") for _ in range(k)]; el = [s.nm("elem") for _ in range(n)]
        def f():
            nx = [s.expr([*st, *el], sh, depth) for _ in st] if r.random() < .75 else [s.raw([*st, *el], sh) for _ in st]; sc = [s.expr([*st, *el, *nx], sh, depth) if r.random() < .7 else s.raw([*st, *el, *nx], sh) for _ in range(scans)]
            return [(x, 1, list(sh)) for x in [*nx, *sc]]
        g = s.graph([(x, 1, list(sh)) for x in [*st, *el]], lambda: s.nested(f))
        xs = [b.op("Mul", r.choice(pool), s.fl(L, *[1] * len(sh))) if s.inner or r.random() < .5 else b.inp(np.random.default_rng(r.getrandbits(32)).uniform(-1.5, 1.5, (L, *sh)).astype(F), dyn=False) for _ in el]
        o = b.op("Scan", *[r.choice(pool) for _ in st], *xs, n=k + scans, body=g, num_scan_inputs=n)
        return [o] if k + scans == 1 else o
def counter(s, pool, sh):
    """A loop kept going by a counter of its own: the compiler derives the trip count when it can."""
    b, r = s.b, s.r; lo, step, n = r.randint(-3, 3), r.choice([1, 1, 2, 3, 5]), r.randint(1, 5); ub = lo + step * (n - 1) + r.randint(1, step); m = r.choice([None, None, 10**6, n + 2, max(n - 1, 1)])
    it, ci, ct, x = (s.nm(p) for p in ("iter", "cond", "counter", "state")); first = r.random() < .5; cv = lambda v: s.const(np.array(v, I)) if r.random() < .7 else b.inp(np.array(v, I), const=False)
    out = {k: s.const(np.array(v, I)) for k, v in (("step", step), ("ub", ub)) if r.random() < .3}; at = {k: cv(v) for k, v in (("step", step), ("ub", ub)) if k not in out and r.random() < .4}
    names = {k: s.nm(k) for k in at}
    def f():
        g = lambda k, v: names.get(k) or out.get(k) or s.const(np.array(v, I))
        st, u = g("step", step), g("ub", ub); nx = b.op("Add", *([ct, st] if r.random() < .8 else [st, ct]))
        c = r.choice(["nx", "nx", "nx", "old", "le"]); co = b.op("Less", nx if c == "nx" else ct, u) if c != "le" else b.op("LessOrEqual", nx, u)
        if r.random() < .2: co = b.op("And", co, ci)
        p = [*pool, x]; p += [b.op("Add", r.choice(p), b.op("Cast", v, to=1)) for v in (r.choice([nx, ct]), it)]; y = s.expr(p, sh, 0)
        return [(co, 9, []), *[(nx, 7, []), (y, 1, list(sh))][::1 if first else -1], *[(b.op("Identity", k), 7, []) for k in names.values()]]
    g = s.graph([(it, 7, []), (ci, 9, []), *[(ct, 7, []), (x, 1, list(sh))][::1 if first else -1], *[(k, 7, []) for k in names.values()]], lambda: s.nested(f))
    c0 = s.const(np.array(True))
    o = b.op("Loop", "" if m is None else s.const(np.array(m, I)), c0, *[cv(lo), r.choice(pool)][::1 if first else -1], *at.values(), n=2 + len(at), body=g)
    return o[:2]
def make(r, kind=None):
    b = B(r, r.choice([16, 17, 18, 19, 20, 21])); s = Sub(b, r); b.unique = True; kind = kind or r.choice(KINDS)
    sh = tuple(r.randint(1, 4) for _ in range(r.choice([1, 2, 2, 3]))); b.name = kind
    s.dyn = kind == "loop" and r.random() < .3
    pool = [b.inp(np.random.default_rng(r.getrandbits(32)).uniform(-1.5, 1.5, sh).astype(F), dyn=bool(s.dyn), const=False if i == 0 else None) for i in range(r.randint(1, 3))]
    if r.random() < .5: pool.append(s.step(pool, sh, 0))
    d = 1 if kind == "nest" else 0
    if kind == "if": o = s.if_(pool, sh, 0)
    elif kind == "loop": o = s.loop(pool, sh, 0, 0 if s.dyn else r.choice([0, 0, 1, 2]))
    elif kind == "count": o = counter(s, pool, sh)
    elif kind == "scan": o = s.scan(pool, sh, 0, r.choice([0, 1, 2]))
    else: o = r.choice([s.if_, s.loop, s.scan])(pool, sh, 2)
    k = [x for x in o]
    if r.random() < .5 and kind not in ("scan", "count"): k = [b.op(r.choice(UN), k[0]), *k[1:]]
    b.out(*k); b.tol = (1e-3, 1e-4)
    finish(b); b.ref = evaluate(b.nodes, b.vals, b.opset, b.outs)
    return b
_ev = {}
def node(n, ops_, args):
    """One ordinary node, by the ONNX reference evaluator."""
    key = (n.SerializeToString(), ops_)
    if key not in _ev:
        if len(_ev) > 5000: _ev.clear()
        g = oh.make_graph([n], "n", [onnx.ValueInfoProto(name=x) for x in dict.fromkeys(n.input) if x], [onnx.ValueInfoProto(name=x) for x in n.output])
        _ev[key] = ReferenceEvaluator(oh.make_model(g, opset_imports=[oh.make_opsetid("", ops_)], ir_version=8))
    with np.errstate(all="ignore"): return _ev[key].run(None, {x: a for x, a in zip(n.input, args) if x})
def evaluate(nodes, env, ops_, outs):
    """Values of a graph, with branches, loops and scans taken one node at a time."""
    env = dict(env)
    for n in nodes:
        at = {a.name: a for a in n.attribute}; x = [env[i] if i else None for i in n.input]
        if n.op_type == "If":
            g = at["then_branch" if bool(np.reshape(x[0], ())) else "else_branch"].g; y = evaluate(g.node, env, ops_, [o.name for o in g.output])
        elif n.op_type == "Loop":
            g = at["body"].g; m = None if x[0] is None else int(np.reshape(x[0], ())); c = True if x[1] is None else bool(np.reshape(x[1], ())); st = x[2:]; k = 0; sc = []
            gi, go = [i.name for i in g.input], [o.name for o in g.output]
            while c and (m is None or k < m):
                y = evaluate(g.node, {**env, gi[0]: np.array(k, I), gi[1]: np.array(c), **dict(zip(gi[2:], st))}, ops_, go)
                c = bool(np.reshape(y[0], ())); st = y[1:1 + len(st)]; sc.append(y[1 + len(st):]); k += 1
            y = [*st, *[np.stack(v) for v in zip(*sc)]]
            if len(y) < len(n.output): raise Skip()
        elif n.op_type == "Scan":
            g = at["body"].g; ns = at["num_scan_inputs"].i; st, xs = x[:-ns], x[-ns:]; sc = []; gi, go = [i.name for i in g.input], [o.name for o in g.output]
            for k in range(len(xs[0])):
                y = evaluate(g.node, {**env, **dict(zip(gi, [*st, *[v[k] for v in xs]]))}, ops_, go); st = y[:len(st)]; sc.append(y[len(st):])
            y = [*st, *[np.stack(v) for v in zip(*sc)]]
        else: y = node(n, ops_, x)
        env.update(zip(n.output, y))
    return [env[o] for o in outs]
@case
def control(r, i, d, st):
    """Branches, loops and scans."""
    b = st["b"] = make(r, KINDS[i] if i < len(KINDS) else None); o = st["opts"] = ["--O" + r.choice("0123")]
    compare(b, once(b, d, o), b.name)
    seen(b); M.sample(f"{b.name} {o} {pieces(b)} -> {[np.shape(x) for x in b.ref]}")
@case
def memctl(r, i, d, st):
    """Control flow instrumented by the address or the memory sanitizer."""
    b = st["b"] = make(r, KINDS[i] if i < len(KINDS) else None); s = r.choice(["asan", "asan", "msan"]); o = st["opts"] = ["--O" + r.choice("0123")]
    compare(b, once(b, d, o, s), b.name)
    M.count("sanitizer " + s); seen(b, extra=(s,)); M.sample(f"{b.name} {s} {o} {pieces(b)}")
SUITES = {"control": control, "memctl": memctl}
