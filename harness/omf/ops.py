"""Generators of single operators (and of small graphs where an operator needs one)."""
from core import *
GEN = {}
def gen(*names, w=1, min=7, **kw):
    def f(fn):
        for n in names or [fn.__name__]: GEN[n] = (fn, n, w, min)
        return fn
    return f
F, I = np.float32, np.int64
SIZES = [1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 16, 17]
def dim(r, hi=9): return r.choice([k for k in SIZES if k <= hi])
def shape(r, lo=1, hi=4, m=9, total=4000):
    while True:
        s = tuple(dim(r, m) for _ in range(r.randint(lo, hi)))
        if np.prod(s, dtype=int) <= total: return s
def rng(r): return np.random.default_rng(r.getrandbits(60))
def fl(r, s, dt=F, lo=-3, hi=3, special=0., nan=True):
    g = rng(r); a = g.uniform(lo, hi, s)
    if special and r.random() < special:
        sp = np.array([0., -0., 1., -1., np.inf, -np.inf, np.nan if nan else 3., 1e30, -1e30, 1e-30, .5, 1.5, 2.5, -.5, 88., -88.])
        m = g.random(np.shape(a)) < .4
        a = np.where(m, g.choice(sp, np.shape(a)), a)
    return np.asarray(a).astype(dt)
def it(r, s, dt=I, lo=-10, hi=10, extreme=0.):
    g = rng(r); ii = np.iinfo(dt)
    lo = max(lo, ii.min); hi = min(hi, ii.max)
    a = g.integers(lo, hi, s, endpoint=True, dtype=dt)
    if extreme and r.random() < extreme:
        a = np.where(g.random(np.shape(a)) < .3, g.choice(np.array([ii.min, ii.max, 0, 1], dt), np.shape(a)), a)
    return np.asarray(a).astype(dt)
def bo(r, s): return rng(r).random(s) < .5
def val(r, s, dt, **k):
    dt = np.dtype(dt)
    return bo(r, s) if dt == bool else fl(r, s, dt, **{a: b for a, b in k.items() if a != "extreme"}) if dt.kind == "f" else it(r, s, dt, **{a: b for a, b in k.items() if a not in ("special", "nan")})
def axes_of(r, n, k=None, neg=True, distinct=True):
    k = r.randint(1, n) if k is None else k
    a = r.sample(range(n), k)
    return [x - n if neg and r.random() < .4 else x for x in a]
def ax(r, n): return r.randrange(-n, n)
def bshape(r, s):
    """A shape that broadcasts to s."""
    t = [1 if r.random() < .3 else k for k in s]
    return tuple(t[r.randint(0, len(t)):] if r.random() < .4 else t)
def bpair(r, lo=0, hi=4):
    s = shape(r, lo, hi) if hi else ()
    a, b = bshape(r, s), s
    if r.random() < .3:
        b = tuple(1 if r.random() < .2 else k for k in s)
    return (a, b) if r.random() < .5 else (b, a)
FD = [np.float32] * 4 + [np.float64]
FI = [np.float32, np.float32, np.float64, np.int32, np.int64]
ci = lambda r, x: np.array(x, I)

UN = {"Abs": FI, "Acos": 1, "Acosh": (1, 9), "Asin": 1, "Asinh": (-9, 9), "Atan": (-9, 9), "Atanh": (-.99, .99), "Ceil": 0, "Cos": (-6, 6), "Cosh": (-4, 4), "Erf": 0, "Exp": 0,
      "Floor": 0, "HardSwish": 0, "Log": (1e-3, 9), "Mish": 0, "Neg": FI, "Reciprocal": (.1, 5), "Relu": FI, "Round": 0, "Sigmoid": 0, "Sign": FI, "Sin": (-6, 6), "Sinh": (-4, 4),
      "Softplus": 0, "Softsign": 0, "Sqrt": (0, 9), "Tan": (-1.4, 1.4), "Tanh": 0, "Not": [bool], "BitwiseNot": [np.int32, np.int64, np.int8], "Identity": FI, "IsNaN": 0, "IsInf": 0,
      "Elu": 0, "Selu": 0, "Celu": 0, "LeakyRelu": 0, "ThresholdedRelu": 0, "HardSigmoid": 0, "Shrink": 0, "Gelu": 0}
ONLY32 = {"Mish", "Erf", "Gelu", "Tanh", "Softsign"}
NONAN = {"Relu", "Sign"}
MINV = {"HardSwish": 14, "Mish": 18, "BitwiseNot": 18, "IsInf": 20, "IsNaN": 20, "Gelu": 20, "Identity": 16, "Relu": 14}
def unary(b, r, name):
    d = UN[name]
    dt = np.dtype(r.choice(d if isinstance(d, list) else [F] if name in ONLY32 or name == "Celu" else FD))
    lo, hi = d if isinstance(d, tuple) else (-1, 1) if d == 1 else (-3, 3)
    exact = name in ("Abs", "Ceil", "Floor", "Neg", "Relu", "Round", "Sign", "Identity", "IsNaN", "IsInf")
    x = b.inp(val(r, shape(r, 0, 5), dt, lo=lo, hi=hi, special=.5 if exact else 0, nan=name not in NONAN, extreme=.3 if name in ("Sign", "Identity", "Relu", "BitwiseNot") else 0))
    at = {}
    u = lambda a, c: round(r.uniform(a, c), 2)
    if name == "Elu": at = dict(alpha=u(.1, 2))
    if name == "Celu": at = dict(alpha=u(.5, 2))
    if name == "Selu" and r.random() < .5: at = dict(alpha=u(.5, 2), gamma=u(.5, 2))
    if name == "LeakyRelu" and r.random() < .8: at = dict(alpha=u(0, 1))
    if name == "ThresholdedRelu" and r.random() < .8: at = dict(alpha=u(-1, 1))
    if name == "HardSigmoid" and r.random() < .8: at = dict(alpha=u(.1, 1), beta=u(0, 1))
    if name == "Shrink": at = dict(bias=u(-1, 1), lambd=u(0, 2))
    if name == "Gelu": at = dict(approximate=r.choice(["none", "tanh"]))
    if name == "IsInf": at = r.choice([{}, dict(detect_negative=0), dict(detect_positive=0)])
    b.out(b.op(name, x, **at))
for n in UN: GEN[n] = ((lambda n: lambda b, r: unary(b, r, n))(n), n, .6, MINV.get(n, 7))

BIN = {"Add": FI, "Sub": FI, "Mul": FI, "Div": FI, "Equal": FI + [bool], "Less": FI, "Greater": FI, "LessOrEqual": FI, "GreaterOrEqual": FI, "And": [bool], "Or": [bool], "Xor": [bool],
       "BitwiseAnd": [np.int32, np.int64], "BitwiseOr": [np.int32, np.int64], "BitwiseXor": [np.int32, np.int64], "Pow": FD, "PRelu": FD}
for n in BIN:
    def f(b, r, n=n):
        dt = np.dtype(r.choice(BIN[n])); sa, sb = bpair(r)
        if n == "PRelu": sa, sb = max((sa, sb), key=np.prod), min((sa, sb), key=np.prod); sb = bshape(r, sa)
        cmp = n in ("Equal", "Less", "Greater", "LessOrEqual", "GreaterOrEqual")
        k = dict(lo=-3, hi=3, special=.3 if cmp else 0)
        a, c = val(r, sa, dt, **k), val(r, sb, dt, **k)
        if n == "Div":
            if dt.kind == "i": c = np.where(c == 0, 2, c).astype(dt)
            else: c = np.where(np.abs(c) < .1, 1.5, c).astype(dt)
            if dt.kind == "i" and (np.signbit(a).any() or np.signbit(c).any()): a, c = np.abs(a), np.abs(c)
        if n == "Pow":
            a = np.abs(a) + dt.type(.1)
            if r.random() < .4: c = np.asarray(r.choice([2, 3, .5, -1, 1, 0]), dt)
        b.out(b.op(n, b.inp(a), b.inp(c)))
    GEN[n] = (f, n, 1, {"BitwiseAnd": 18, "BitwiseOr": 18, "BitwiseXor": 18}.get(n, 13 if n == "Equal" else 12 if "OrEqual" in n else 7))
@gen(w=1, min=10)
def Mod(b, r):
    sa, sb = bpair(r)
    if r.random() < .6:
        dt = r.choice(FD); c = fl(r, sb, dt); c = np.where(np.abs(c) < .2, 1.25, c).astype(dt)
        b.out(b.op("Mod", b.inp(fl(r, sa, dt)), b.inp(c), fmod=1))
    else:
        dt = r.choice([np.int32, np.int64]); c = it(r, sb, dt); c = np.where(c == 0, 3, c).astype(dt)
        b.out(b.op("Mod", b.inp(it(r, sa, dt, -20, 20)), b.inp(c), fmod=r.choice([None, 0])))
@gen(min=11)
def BitShift(b, r):
    sa, sb = bpair(r); dt = r.choice([np.uint8, np.uint16, np.uint32, np.uint64])
    b.out(b.op("BitShift", b.inp(it(r, sa, dt, 0, 255)), b.inp(it(r, sb, dt, 0, 7)), direction=r.choice(["LEFT", "RIGHT"])))
def bdyn(s, a):
    """Where several operators are fused a last dimension that broadcasts has to be static: see the known cases."""
    return [a.ndim - 1] if a.ndim and a.shape[-1] != s[-1] else True
@gen("Max", "Min", "Sum", "Mean", min=13)
def variadic(b, r, name):
    s = shape(r, 0, 4); k = r.randint(1, 4)
    dt = np.dtype(r.choice(FI if name in ("Max", "Min") else FD))
    xs = [val(r, bshape(r, s) if i else s, dt) for i in range(k)]
    b.out(b.op(name, *[b.inp(x, dyn=bdyn(s, x)) for x in xs]))
@gen(min=16)
def Where(b, r):
    s = shape(r, 0, 4); dt = np.dtype(r.choice(FI + [bool]))
    sh = [s, bshape(r, s), bshape(r, s)]; r.shuffle(sh)
    b.out(b.op("Where", b.inp(bo(r, sh[0])), b.inp(val(r, sh[1], dt)), b.inp(val(r, sh[2], dt))))
@gen(min=12)
def Clip(b, r):
    dt = np.dtype(r.choice(FI)); x = b.inp(val(r, shape(r, 0, 4), dt))
    lo, hi = sorted([r.uniform(-2, 2), r.uniform(-2, 2)])
    b.out(b.op("Clip", x, b.inp(np.asarray(lo, dt)) if r.random() < .7 else None, b.inp(np.asarray(hi, dt)) if r.random() < .7 else None))

RED = ["ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare"]
@gen(*RED, w=1.2, min=13)
def reduction(b, r, name):
    s = shape(r, 1, 4, m=9); dt = np.dtype(r.choice([F, F, F, np.float64] + ([np.int32, np.int64] if name in ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceProd") else [])))
    x = b.inp(val(r, s, dt, lo=.2 if name == "ReduceLogSum" else -2, hi=2))
    keep = r.choice([None, 0, 1]); axes = axes_of(r, len(s)) if r.random() < .85 else None
    if name == "ReduceSum" or b.opset >= 18:
        noop = r.choice([None, None, 0, 1]) if name not in () else None
        if axes is None and noop == 1: noop = 0 if name not in ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceMean") else noop
        b.out(b.op(name, x, b.inp(ci(r, axes), const=True if name != "ReduceSum" or keep == 0 or r.random() < .7 else None) if axes is not None else None, keepdims=keep, noop_with_empty_axes=noop))
    else: b.out(b.op(name, x, axes=axes, keepdims=keep))
    b.tol = (1e-3, 1e-4) if dt == F else (1e-6, 1e-8)
@gen("ArgMax", "ArgMin", min=13)
def argm(b, r, name):
    s = shape(r, 1, 4); dt = np.dtype(r.choice(FI))
    x = b.inp(it(r, s, np.int32, -3, 3).astype(dt))
    b.out(b.op(name, x, axis=r.choice([None, ax(r, len(s))]), keepdims=r.choice([None, 0, 1]), select_last_index=r.choice([None, 0, 1])))
@gen(min=11)
def CumSum(b, r):
    s = shape(r, 1, 4); dt = r.choice([F, np.float64] if 1 else FI)
    x = b.inp(val(r, s, dt))
    b.out(b.op("CumSum", x, b.inp(np.array(ax(r, len(s)), r.choice([np.int32, I])), const=True if r.random() < .7 else None), exclusive=r.choice([None, 0, 1]), reverse=r.choice([None, 0, 1])))
@gen(min=11)
def TopK(b, r):
    s = shape(r, 1, 4); a = r.choice([-1, len(s) - 1]); n = s[a]; dt = np.dtype(r.choice([F, F, np.float64, np.int32, I, np.uint32, np.uint64]))  # only the last axis is supported
    v = rng(r).permutation(int(np.prod(s))).reshape(s)
    v = (v * 2 - v.size).astype(dt) if dt.kind != "u" or r.random() < .7 else v.astype(dt)  # negative, or as unsigned beyond the range of the signed type
    b.out(*b.op("TopK", b.inp(v), b.inp(np.array([r.randint(1, n)], I), const=True if r.random() < .7 else None, dyn=False), n=2, axis=a, largest=r.choice([None, 0, 1]), sorted=r.choice([None, 1])))
@gen("Softmax", "LogSoftmax", "Hardmax", min=13)
def softmax(b, r, name):
    s = shape(r, 1, 4); b.out(b.op(name, b.inp(fl(r, s, r.choice(FD) if name != "Hardmax" else F, -4, 4)), axis=r.choice([None, ax(r, len(s))])))
@gen(w=1.5, min=9)
def Gemm(b, r):
    m, k, n = dim(r, 17), dim(r, 17), dim(r, 17); ta, tb = r.randint(0, 1), r.randint(0, 1); dt = r.choice(FD)
    a, c = fl(r, (k, m) if ta else (m, k), dt), fl(r, (n, k) if tb else (k, n), dt)
    C = fl(r, bshape(r, (m, n)), dt) if r.random() < .8 else None
    b.out(b.op("Gemm", b.inp(a), b.inp(c), b.inp(C) if C is not None else None, transA=ta, transB=tb, alpha=r.choice([None, 1., .5, -2.]), beta=r.choice([None, 1., .25, 0.])))
    b.tol = (1e-3, 1e-3)
def mmshapes(r):
    m, k, n = dim(r, 17), dim(r, 17), dim(r, 17)
    bs = shape(r, 0, 2, m=4); ba, bb = bshape(r, bs), bs
    if r.random() < .5: ba, bb = bb, ba
    if r.random() < .4: ba = bb = ()
    a, c = (*ba, m, k), (*bb, k, n)
    if r.random() < .12: a = (k,)
    if len(a) > 1 and r.random() < .12: c = (k, n)[:1]  # not two vectors: see the known cases
    return a, c
def mmdyn(a, c):
    """A batch dimension that broadcasts has to be static."""
    d = [set(), set()]
    for k in range(3, min(len(a), len(c)) + 1):
        if a[-k] != c[-k]: d[0].add(len(a) - k); d[1].add(len(c) - k)
    return d
@gen(w=2.5, min=9)
def MatMul(b, r):
    a, c = mmshapes(r); dt = r.choice([F, F, F, np.float64, np.int32]); da, dc = mmdyn(a, c)
    b.out(b.op("MatMul", b.inp(val(r, a, dt), dyn=da), b.inp(val(r, c, dt), dyn=dc))); b.tol = (1e-3, 1e-3)
@gen(min=10)
def MatMulInteger(b, r):
    a, c = mmshapes(r)
    A, C = it(r, a, np.uint8, 0, 255), it(r, c, r.choice([np.uint8, np.int8]), -127, 127)
    z = r.randint(0, 3)
    da, dc = mmdyn(a, c)
    b.out(b.op("MatMulInteger", b.inp(A, dyn=da), b.inp(C, dyn=dc), b.inp(np.array(r.randrange(256), np.uint8)) if z & 1 else None, b.inp(np.array(r.randrange(100), C.dtype)) if z & 2 else None))
def convdims(r, nd, trans=False):
    g = r.choice([1, 1, 1, 2, 3, 4]); ci_, co = g * r.choice([1, 2, 3]), g * r.choice([1, 2, 3]); n = r.choice([1, 1, 2])
    k = [r.choice([1, 2, 3, 3]) for _ in range(nd)]; st = [r.choice([1, 1, 2, 3]) for _ in range(nd)]; di = [r.choice([1, 1, 1, 2]) for _ in range(nd)]
    sp = [r.randint((k[i] - 1) * di[i] + 1, (k[i] - 1) * di[i] + {1: 14, 2: 9, 3: 5}[nd]) for i in range(nd)]
    return g, ci_, co, n, k, st, di, sp
@gen(w=3, min=11)
def Conv(b, r):
    nd = r.choice([1, 2, 2, 2, 3]); g, c, o, n, k, st, di, sp = convdims(r, nd)
    at = dict(group=g, strides=st if r.random() < .8 else None, dilations=di if r.random() < .9 else None, kernel_shape=k if r.random() < .7 else None)
    if at["dilations"] is None: pass
    p = r.random()
    if p < .45: at["pads"] = [r.randint(0, 2) for _ in range(2 * nd)]
    elif p < .65: at["auto_pad"] = r.choice(["SAME_UPPER", "SAME_LOWER", "VALID"]); 
    if at.get("auto_pad", "").startswith("SAME"): at["dilations"] = None; at["kernel_shape"] = k
    ins = [b.inp(fl(r, (n, c, *sp))), b.inp(fl(r, (o, c // g, *k)))]
    if r.random() < .6: ins.append(b.inp(fl(r, (o,))))
    b.check = lambda b: [conv_ref(*[b.vals[i] for i in ins], k=k, **at)]
    b.out(b.op("Conv", *ins, **at)); b.tol = (1e-3, 1e-3)
def conv_ref(X, W, Bi=None, k=None, group=1, strides=None, dilations=None, pads=None, auto_pad="NOTSET", kernel_shape=None):
    nd = len(k); st = strides or [1] * nd; di = dilations or [1] * nd; S = X.shape[2:]; ek = [(k[i] - 1) * di[i] + 1 for i in range(nd)]
    p = list(pads or [0] * 2 * nd)
    if auto_pad.startswith("SAME"):
        for i in range(nd):
            t = max(0, (-(-S[i] // st[i]) - 1) * st[i] + ek[i] - S[i]); lo = t // 2 if auto_pad == "SAME_UPPER" else t - t // 2
            p[i], p[nd + i] = lo, t - lo
    Xp = np.pad(X.astype(np.float64), [(0, 0), (0, 0)] + [(p[i], p[nd + i]) for i in range(nd)])
    O = [(Xp.shape[2 + i] - ek[i]) // st[i] + 1 for i in range(nd)]
    if min(O) < 1: raise Skip()
    N, C, M = X.shape[0], X.shape[1], W.shape[0]; Y = np.zeros((N, M, *O)); cg, mg = C // group, M // group
    for kk in np.ndindex(*k):
        sl = tuple(slice(kk[i] * di[i], kk[i] * di[i] + (O[i] - 1) * st[i] + 1, st[i]) for i in range(nd))
        for g in range(group):
            Y[:, g * mg:(g + 1) * mg] += np.einsum("nc...,mc->nm...", Xp[(slice(None), slice(g * cg, (g + 1) * cg), *sl)], W[(slice(g * mg, (g + 1) * mg), slice(None), *kk)].astype(np.float64))
    if Bi is not None: Y += Bi.reshape(1, -1, *[1] * nd)
    return Y.astype(X.dtype)
def convt_ref(X, W, Bi=None, k=None, group=1, strides=None, dilations=None, pads=None, output_padding=None, kernel_shape=None, auto_pad="NOTSET", output_shape=None):
    nd = len(k); st = strides or [1] * nd; di = dilations or [1] * nd; S = X.shape[2:]; p = pads or [0] * 2 * nd; op = output_padding or [0] * nd
    full = [(S[i] - 1) * st[i] + (k[i] - 1) * di[i] + 1 for i in range(nd)]
    N, C, mg = X.shape[0], X.shape[1], W.shape[1]; cg = C // group; Y = np.zeros((N, mg * group, *[f + o for f, o in zip(full, op)]))
    for kk in np.ndindex(*k):
        sl = tuple(slice(kk[i] * di[i], kk[i] * di[i] + (S[i] - 1) * st[i] + 1, st[i]) for i in range(nd))
        for g in range(group):
            Y[(slice(None), slice(g * mg, (g + 1) * mg), *sl)] += np.einsum("nc...,cm->nm...", X[:, g * cg:(g + 1) * cg].astype(np.float64), W[(slice(g * cg, (g + 1) * cg), slice(None), *kk)].astype(np.float64))
    Y = Y[(slice(None), slice(None), *[slice(p[i], Y.shape[2 + i] - p[nd + i]) for i in range(nd)])]
    if min(Y.shape) < 1: raise Skip()
    if Bi is not None: Y = Y + Bi.reshape(1, -1, *[1] * nd)
    return Y.astype(X.dtype)
@gen(w=1.5, min=11)
def ConvTranspose(b, r):
    nd = r.choice([1, 2, 2, 3]); g, c, o, n, k, st, di, sp = convdims(r, nd); sp = [min(x, 5) for x in sp]
    op = [r.randint(0, max(0, s - 1)) for s in st] if r.random() < .4 else None
    at = dict(group=g, strides=st, dilations=di, output_padding=op, kernel_shape=k if r.random() < .6 else None)
    if r.random() < .4: at["pads"] = [r.randint(0, max(0, ((kk - 1) * d) // 2)) for _ in (0, 1) for kk, d in zip(k, di)]
    ins = [b.inp(fl(r, (n, c, *sp)), dyn=False), b.inp(fl(r, (c, o // g, *k)), const=True)]
    if r.random() < .5: ins.append(b.inp(fl(r, (o,))))
    b.check = lambda b: [convt_ref(*[b.vals[i] for i in ins], k=k, **at)]
    b.out(b.op("ConvTranspose", *ins, **at)); b.tol = (1e-3, 1e-3)
@gen("MaxPool", "AveragePool", w=2, min=11)
def pool(b, r, name):
    nd = r.choice([1, 2, 2, 3]); _, _, _, n, k, st, di, sp = convdims(r, nd); c = r.choice([1, 2, 3])
    at = dict(kernel_shape=k, strides=st if r.random() < .8 else None)
    dil = name == "MaxPool" or b.opset >= 19
    if dil and r.random() < .4: at["dilations"] = [1] * nd  # larger ones: see the known cases
    p = r.random()
    if p < .4: at["pads"] = [r.randint(0, max(0, (kk - 1) // 1 if name == "MaxPool" and 0 else kk // 2)) for _ in (0, 1) for kk in k]
    elif p < .55 and "dilations" not in at: at["auto_pad"] = r.choice(["SAME_UPPER", "SAME_LOWER", "VALID"])
    if r.random() < .4 and "auto_pad" not in at and max(at.get("dilations", [1])) == 1: at["ceil_mode"] = 1
    if name == "AveragePool": at["count_include_pad"] = r.choice([None, 0, 1]) if "ceil_mode" not in at else None
    b.check = pool_ref(name, at, nd)
    b.out(b.op(name, b.inp(fl(r, (n, c, *sp))), **at))
def pool_ref(name, at, nd):
    def f(b):
        X = next(iter(b.vals.values())); k = at["kernel_shape"]; st = at.get("strides") or [1] * nd; di = at.get("dilations") or [1] * nd
        S = X.shape[2:]; ap = at.get("auto_pad", "NOTSET"); ek = [(k[i] - 1) * di[i] + 1 for i in range(nd)]
        pads = list(at.get("pads") or [0] * 2 * nd); out = []
        for i in range(nd):
            if ap.startswith("SAME"):
                o = -(-S[i] // st[i]); t = max(0, (o - 1) * st[i] + ek[i] - S[i]); lo = t // 2 if ap == "SAME_UPPER" else t - t // 2
                pads[i], pads[nd + i] = lo, t - lo
            elif ap == "VALID": pads[i] = pads[nd + i] = 0; o = -(-(S[i] - ek[i] + 1) // st[i])
            else:
                v = S[i] + pads[i] + pads[nd + i] - ek[i]
                o = (-(-v // st[i]) if at.get("ceil_mode") else v // st[i]) + 1
                if at.get("ceil_mode") and (o - 1) * st[i] >= S[i] + pads[i]: raise Skip()  # a window beyond the input: see the known cases
            out.append(o)
        Y = np.zeros((*X.shape[:2], *out), np.float64)
        for idx in np.ndindex(*out):
            vals, cnt = [], 0
            for kk in np.ndindex(*k):
                p = [idx[i] * st[i] - pads[i] + kk[i] * di[i] for i in range(nd)]
                if all(0 <= p[i] < S[i] for i in range(nd)): vals.append(X[(slice(None), slice(None), *p)])
                if all(p[i] < S[i] + pads[nd + i] for i in range(nd)): cnt += 1
            if not vals: raise Skip()
            v = np.stack(vals, -1)
            Y[(slice(None), slice(None), *idx)] = v.max(-1) if name == "MaxPool" else v.astype(np.float64).sum(-1) / (cnt if at.get("count_include_pad") else len(vals))
        return [Y.astype(X.dtype)]
    return f
@gen("GlobalAveragePool", "GlobalMaxPool", w=.5)
def gpool(b, r, name):
    f = np.mean if "Aver" in name else np.max
    b.check = lambda b: [(lambda x: f(x.astype(np.float64), axis=tuple(range(2, x.ndim)), keepdims=True).astype(F))(next(iter(b.vals.values())))]
    b.out(b.op(name, b.inp(fl(r, (r.choice([1, 2]), r.choice([1, 3]), *shape(r, 1, 3, m=7))))))
@gen(min=15)
def BatchNormalization(b, r):
    c = r.choice([1, 2, 5]); s = (r.choice([1, 2]), c, *shape(r, 0, 3, m=5)); p = lambda lo=-2: b.inp(fl(r, (c,), lo=lo, hi=2))
    b.out(b.op("BatchNormalization", b.inp(fl(r, s)), p(), p(), p(), p(.2), epsilon=r.choice([None, .001, .1])))
@gen(w=.7)
def InstanceNormalization(b, r):
    c = r.choice([1, 2, 5]); s = (r.choice([1, 2]), c, *shape(r, 1, 3, m=7)); p = lambda: b.inp(fl(r, (c,)))
    b.out(b.op("InstanceNormalization", b.inp(fl(r, s)), p(), p(), epsilon=r.choice([None, .001, .1]))); b.tol = (1e-3, 1e-3)
@gen(w=1, min=17)
def LayerNormalization(b, r):
    s = shape(r, 1, 4); a = ax(r, len(s)); t = s[a:] if a >= 0 else s[len(s) + a:]
    if np.prod(t) < 2: raise Skip()
    ins = [b.inp(fl(r, s)), b.inp(fl(r, t))] + ([b.inp(fl(r, t))] if r.random() < .6 else [])
    b.out(b.op("LayerNormalization", *ins, axis=a if a != -1 or r.random() < .5 else None, epsilon=r.choice([None, .001, .1]))); b.tol = (1e-3, 1e-3)
@gen(w=.7, min=21)
def GroupNormalization(b, r):
    g = r.choice([1, 2, 3]); c = g * r.choice([1, 2]); s = (r.choice([1, 2]), c, *shape(r, 1, 3, m=5)); k = c
    b.out(b.op("GroupNormalization", b.inp(fl(r, s)), b.inp(fl(r, (k,))), b.inp(fl(r, (k,))), num_groups=g, epsilon=r.choice([None, .01]))); b.tol = (1e-3, 1e-3)
@gen(w=.5, min=13)
def LRN(b, r):
    at = dict(size=r.choice([1, 3, 5, 2]), alpha=r.choice([None, .01, .5]), beta=r.choice([None, .5]), bias=r.choice([None, 2.]))
    def ref(b):
        x = next(iter(b.vals.values())).astype(np.float64); n = at["size"]; q = np.zeros_like(x); C = x.shape[1]
        for c in range(C): q[:, c] = (x[:, max(0, c - (n - 1) // 2):min(C, c + -(-(n - 1) // 2) + 1)] ** 2).sum(1)
        return [(x / ((at["bias"] or 1.) + (at["alpha"] or 1e-4) / n * q) ** (at["beta"] or .75)).astype(F)]
    b.check = ref
    b.out(b.op("LRN", b.inp(fl(r, (r.choice([1, 2]), r.choice([1, 3, 6]), *shape(r, 2, 2, m=5)))), **at))
@gen(w=.5)
def LpNormalization(b, r): s = shape(r, 1, 4); b.out(b.op("LpNormalization", b.inp(fl(r, s, lo=.1)), axis=r.choice([None, ax(r, len(s))]), p=r.choice([None, 1, 2])))
@gen(w=.5, min=13)
def MeanVarianceNormalization(b, r):
    s = shape(r, 4, 4, m=5); a = r.choice([None, [0, 2, 3], [2, 3], [1, 2, 3]])
    if s[-1] * s[-2] < 4: raise Skip()
    b.out(b.op("MeanVarianceNormalization", b.inp(fl(r, s)), axes=a)); b.tol = (1e-3, 1e-3)

CASTS = [np.float32, np.float64, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, bool]
@gen("Cast", "CastLike", w=1.5, min=13)
def cast(b, r, name):
    f, t = np.dtype(r.choice(CASTS)), np.dtype(r.choice(CASTS)); s = shape(r, 0, 3)
    if name == "CastLike" and b.opset < 15: b.opset = 15
    if f.kind in "ib" and t.kind == "u": raise Skip()  # rejected with a diagnostic
    a = val(r, s, f, lo=0, hi=100) if "u" in (f.kind, t.kind) else val(r, s, f, lo=-100, hi=100)
    x = b.inp(a)
    b.out(b.op("Cast", x, to=ot(t)) if name == "Cast" else b.op("CastLike", x, b.inp(np.ones((1,), t))))
@gen(w=1.5)
def Concat(b, r):
    s = list(shape(r, 1, 4)); a = ax(r, len(s)); dt = r.choice(FI + [bool]); k = r.randint(1, 4); xs = []
    for _ in range(k): s[a] = dim(r); xs.append(b.inp(val(r, tuple(s), dt)))
    b.out(b.op("Concat", *xs, axis=a))
@gen(w=1.5, min=13)
def Split(b, r):
    s = list(shape(r, 1, 4)); a = ax(r, len(s)); k = r.randint(1, 4); dt = r.choice(FI)
    if r.random() < .5:
        p = [r.randint(1, 4) for _ in range(k)]; s[a] = sum(p)
        b.out(*[o for o in [b.op("Split", b.inp(val(r, s, dt)), b.inp(ci(r, p), const=True), n=k, axis=a)]] if k == 1 else b.op("Split", b.inp(val(r, s, dt)), b.inp(ci(r, p), const=True), n=k, axis=a))
    else:
        s[a] = k * r.randint(1, 3); at = {}
        if b.opset >= 18:
            at["num_outputs"] = k
            if k > 1 and r.random() < .4 and s[a] > k: s[a] -= 1  # the last one is one smaller
        o = b.op("Split", b.inp(val(r, s, dt), const=False if s[a] % k else None, dyn=[a % len(s)]), n=k, axis=a, **at)
        b.out(*([o] if k == 1 else o))
@gen(w=3, min=13)
def Slice(b, r):
    s = shape(r, 1, 4); n = len(s); axs = axes_of(r, n); st, en, sp = [], [], []
    for x in axs:
        k = s[x]; p = r.choice([1, 1, 2, 3, -1, -1, -2]); lo, hi = r.randint(-k - 2, k + 2), r.randint(-k - 2, k + 2)
        if r.random() < .2: hi = r.choice([2**31 - 1, 2**63 - 1]) if p > 0 else -2**31
        if len(range(*slice(lo, hi if not (p < 0 and hi < -k) else None, p).indices(k))) == 0: lo, hi = (0, k) if p > 0 else (k - 1, -k - 1)
        st.append(lo); en.append(hi); sp.append(p)
    full = axs == list(range(n)) and r.random() < .5
    c = True if r.random() < .7 else None; ti = r.choice([I, I, np.int32])
    if ti == np.int32: en = [max(-2**31, min(2**31 - 1, e)) for e in en]
    q = lambda v: b.inp(np.array(v, ti), const=c, dyn=False)
    steps = None if all(p == 1 for p in sp) and r.random() < .5 else sp
    dt = r.choice(FI + [bool])
    b.out(b.op("Slice", b.inp(val(r, s, dt)), q(st), q(en), None if full and steps is None else b.inp(np.array(axs, ti), const=True), q(steps) if steps else None))
@gen(w=1.5)
def Gather(b, r):
    s = shape(r, 1, 4); a = ax(r, len(s)); k = s[a]; dt = r.choice(FI); t = r.choice([I, I, np.int32])
    b.out(b.op("Gather", b.inp(val(r, s, dt)), b.inp(it(r, shape(r, 0, 3, m=4), t, -k, k - 1)), axis=r.choice([a, a, None]) if a == 0 else a))
@gen(min=11)
def GatherElements(b, r):
    s = shape(r, 1, 4); a = ax(r, len(s)); k = s[a]; q = tuple(r.randint(1, d) for d in s)
    def ref(b):
        x, ix = list(b.vals.values())[:2]; o = np.zeros(ix.shape, x.dtype)
        for i in np.ndindex(*ix.shape): j = list(i); j[a] = ix[i]; o[i] = x[tuple(j)]
        return [o]
    b.check = ref
    b.out(b.op("GatherElements", b.inp(val(r, s, r.choice(FI))), b.inp(it(r, q, r.choice([I, np.int32]), -k, k - 1)), axis=a))
@gen(min=12)
def GatherND(b, r):
    s = shape(r, 1, 4, m=5); bd = r.randint(0, min(2, len(s) - 1)); k = r.randint(1, len(s) - bd)
    q = (*s[:bd], *shape(r, 0 if bd else 1, 2, m=4), k)
    if len(q) == bd: raise Skip()
    ix = np.stack([it(r, q[:-1], I, 0, s[bd + i] - 1) for i in range(k)], -1)
    b.out(b.op("GatherND", b.inp(val(r, s, r.choice(FI))), b.inp(ix, dyn=[len(q) - 1]), batch_dims=bd or None))
@gen(min=11)
def ScatterElements(b, r):
    s = shape(r, 1, 4, m=5); a = ax(r, len(s)); x = a % len(s)
    q = [r.randint(1, d) for d in s]
    g = rng(r); ix = np.zeros(q, I)
    for i in np.ndindex(*[1 if j == x else d for j, d in enumerate(q)]):
        ix[tuple(slice(None) if j == x else v for j, v in enumerate(i))] = g.permutation(s[x])[:q[x]]
    if r.random() < .5: ix = np.where(g.random(ix.shape) < .3, ix - s[x], ix)
    dt = r.choice(FI)
    b.out(b.op("ScatterElements", b.inp(val(r, s, dt)), b.inp(ix.astype(r.choice([I, np.int32]))), b.inp(val(r, q, dt)), axis=a))
@gen(min=11)
def ScatterND(b, r):
    s = shape(r, 1, 4, m=5); k = r.randint(1, min(2, len(s))); n = int(np.prod(s[:k])); cnt = r.randint(1, min(n, 6))
    flat = rng(r).permutation(n)[:cnt]; ix = np.stack(np.unravel_index(flat, s[:k]), -1).astype(I); dt = r.choice(FI)
    q = (cnt,)
    if k == 2: f = [d for d in (1, 2, 3) if cnt % d == 0]; d = r.choice(f); q = (d, cnt // d)
    b.out(b.op("ScatterND", b.inp(val(r, s, dt)), b.inp(ix.astype(I).reshape(*q, k), dyn=[len(q)]), b.inp(val(r, (*q, *s[k:]), dt))))
def factor(r, n):
    f = []
    while n > 1 and len(f) < 4:
        p = r.choice([d for d in range(2, n + 1) if n % d == 0] + [n]); f.append(p); n //= p
    f += [n] if n > 1 else []
    for _ in range(r.randint(0, 2)): f.insert(r.randint(0, len(f)), 1)
    r.shuffle(f)
    return f
@gen(w=2, min=13)
def Reshape(b, r):
    s = shape(r, 0, 4); t = factor(r, int(np.prod(s, dtype=int)))[:6]
    t += [int(np.prod(s, dtype=int)) // int(np.prod(t, dtype=int))] if np.prod(t, dtype=int) != np.prod(s, dtype=int) else []
    t = list(t)
    for i in range(min(len(s), len(t))):
        if t[i] == s[i] and r.random() < .4: t[i] = 0
    if t and r.random() < .6: t[r.randrange(len(t))] = -1
    b.out(b.op("Reshape", b.inp(val(r, s, r.choice(FI + [bool]))), b.inp(ci(r, t), const=True if not len(t) or r.random() < .7 else None, dyn=False)))
@gen()
def Flatten(b, r): s = shape(r, 1, 4); b.out(b.op("Flatten", b.inp(val(r, s, r.choice(FI))), axis=r.choice([None, r.randint(-len(s), len(s))])))
@gen(w=1.5)
def Transpose(b, r):
    s = shape(r, 0, 5, m=8); p = list(range(len(s))); r.shuffle(p)
    b.out(b.op("Transpose", b.inp(val(r, s, r.choice(FI + [bool, np.uint8]))), perm=p if len(s) and r.random() < .85 else None))
@gen(min=13)
def Squeeze(b, r):
    s = list(shape(r, 1, 5, m=5)); ones = [i for i in range(len(s)) if r.random() < .5]
    for i in ones: s[i] = 1
    x = b.inp(val(r, s, r.choice(FI)), dyn=[i for i in range(len(s)) if s[i] != 1] and [i for i in range(len(s)) if s[i] == 1])
    if ones and r.random() < .85: b.out(b.op("Squeeze", x, b.inp(ci(r, [i - len(s) if r.random() < .4 else i for i in r.sample(ones, len(ones))]), const=True)))
    else: b.out(b.op("Squeeze", x)); b.nodyn[x] = set(range(len(s)))
@gen(min=13)
def Unsqueeze(b, r):
    s = shape(r, 0, 4); k = r.randint(1, 2); n = len(s) + k
    b.out(b.op("Unsqueeze", b.inp(val(r, s, r.choice(FI))), b.inp(ci(r, axes_of(r, n, k)), const=True)))
@gen(min=13)
def Tile(b, r): s = shape(r, 1, 4, m=5, total=300); b.out(b.op("Tile", b.inp(val(r, s, r.choice(FI))), b.inp(ci(r, [r.choice([1, 1, 2, 3]) for _ in s]), dyn=False)))
@gen(w=1.5, min=13)
def Expand(b, r):
    s = shape(r, 1, 4, m=5); a = bshape(r, s); t = list(s)
    if r.random() < .3 and len(a) >= len(s): t = [1 if a[i] == s[i] and r.random() < .5 else s[i] for i in range(len(s))]
    b.out(b.op("Expand", b.inp(val(r, a, r.choice(FI + [bool]))), b.inp(ci(r, t), dyn=False)))
@gen(w=2, min=13)
def Pad(b, r):
    s = shape(r, 1, 4, m=6); mode = r.choice([None, "constant", "constant", "reflect", "edge"]); n = len(s)
    p = [r.randint(0, 2) if mode != "reflect" else r.randint(0, min(2, s[i % n] - 1)) for i in range(2 * n)]
    if mode in (None, "constant") and r.random() < .25:
        p = [(-1 if s[i % n] >= 4 and r.random() < .4 else v) for i, v in enumerate(p)]
    dt = np.dtype(r.choice(FI))
    b.out(b.op("Pad", b.inp(val(r, s, dt)), b.inp(ci(r, p), const=True if r.random() < .6 else None, dyn=False), b.inp(np.asarray(r.randint(-3, 3), dt)) if mode in (None, "constant") and r.random() < .7 else None, mode=mode))
@gen(min=15)
def Shape(b, r):
    s = shape(r, 0, 4); at = {}
    if len(s) and r.random() < .6: at = dict(start=r.randint(-len(s), len(s) - 1)); 
    if at and r.random() < .6: at["end"] = r.randint(-len(s), len(s) + 1)
    if len(s) == 0 or len(np.array(s)[at.get("start", 0):at.get("end", len(s))]) == 0: raise Skip()
    b.out(b.op("Shape", b.inp(fl(r, s), const=False), **at))
@gen(w=.6, min=13)
def Size(b, r): b.out(b.op("Size", b.inp(fl(r, shape(r, 0, 4)), const=False)))
@gen(min=9)
def ConstantOfShape(b, r):
    dt = np.dtype(r.choice(FI + [bool, np.int8]))
    b.out(b.op("ConstantOfShape", b.inp(ci(r, shape(r, 1, 3)), dyn=False), value=nh.from_array(np.array([r.randint(0, 1) if dt == bool else r.randint(-3, 3)], dt)) if r.random() < .8 else None))
@gen(min=11)
def Range(b, r):
    dt = np.dtype(r.choice([F, np.float64, np.int32, I, np.int16])); st = r.randint(-5, 5); d = r.choice([-2, -1, 1, 2, 3]); n = r.randint(1, 9)
    b.out(b.op("Range", *[b.inp(np.asarray(v, dt)) for v in (st, st + d * n - (r.choice([0, 1]) if d > 1 else 0), d)]))
@gen(min=13)
def NonZero(b, r):
    s = shape(r, 1, 4, m=6); x = (val(r, s, r.choice(FI)) * bo(r, s)).astype(r.choice(FI + [bool]))
    if len(s) > 1:  # the coordinates along every axis in increasing order (see the known cases)
        c = np.sort(np.array([[r.randrange(k) for k in s] for _ in range(r.randint(1, 8))]), axis=0); x = np.zeros(s, x.dtype)
        for i in c: x[tuple(i)] = 1
    b.out(b.op("NonZero", b.inp(x)))
@gen(min=11)
def OneHot(b, r):
    s = shape(r, 0, 3, m=5); d = r.randint(1, 7); dt = np.dtype(r.choice(FI)); it_ = r.choice([I, np.int32])
    q = it(r, s, it_, *r.choice([(-d, d - 1), (-d, d - 1), (-2 * d - 2, 2 * d + 2)])); v = val(r, (2,), dt); a = r.choice([None, ax(r, len(s) + 1)])
    b.out(b.op("OneHot", b.inp(q), b.inp(np.array(d, I) if r.random() < .5 else np.array([d], I), dyn=False), b.inp(v, dyn=False), axis=a))
    # Indices outside [-depth, depth-1] give off values only (the reference evaluator wraps them).
    h = np.where(q < 0, q + d, q)[..., None] == np.arange(d)
    b.check = lambda b: [np.moveaxis(np.where(h, v[1], v[0]).astype(dt), -1, -1 if a is None else a)]
@gen(min=11)
def Compress(b, r):
    s = shape(r, 1, 4, m=6); a = ax(r, len(s)) if r.random() < .7 else None
    n = s[a] if a is not None else int(np.prod(s)); c = bo(r, (n,)); c[0] = True
    if r.random() < .3 and n > 2: c = c[:n - 1]
    b.out(b.op("Compress", b.inp(val(r, s, r.choice(FI))), b.inp(c), axis=a))
@gen(min=13)
def DepthToSpace(b, r):
    k = r.choice([2, 3]); b.out(b.op("DepthToSpace", b.inp(fl(r, (r.choice([1, 2]), k * k * r.choice([1, 2]), dim(r, 4), dim(r, 4))), dyn=False), blocksize=k, mode=r.choice([None, "DCR", "CRD"])))
@gen(w=.7, min=13)
def SpaceToDepth(b, r):
    k = r.choice([2, 3]); x = b.inp(fl(r, (r.choice([1, 2]), 1, k * dim(r, 3), k * dim(r, 3))), dyn=False)  # one channel: see the known cases
    def ref(b):
        v = b.vals[x]; n, c, h, w = v.shape
        return [v.reshape(n, c, h // k, k, w // k, k).transpose(0, 3, 5, 1, 2, 4).reshape(n, c * k * k, h // k, w // k)]
    b.check = ref; b.out(b.op("SpaceToDepth", x, blocksize=k))
@gen(w=.7, min=10)
def ReverseSequence(b, r):
    s = shape(r, 2, 4, m=6); t = r.choice([0, 1]); sl = it(r, (s[1 - t],), I, 1, s[t])
    b.out(b.op("ReverseSequence", b.inp(fl(r, s)), b.inp(sl), batch_axis=1 - t, time_axis=t))
@gen(min=14)
def Trilu(b, r): s = shape(r, 2, 4, m=7); b.out(b.op("Trilu", b.inp(val(r, s, r.choice(FI))), b.inp(np.array(r.randint(-4, 4), I)) if r.random() < .7 else None, upper=r.choice([None, 0, 1])))
@gen(w=1, min=11)
def Unique(b, r):
    s = shape(r, 1, 3, m=5); dt = r.choice(FI); a = r.choice([None, ax(r, len(s))]); k = r.randint(1, 4)
    v = it(r, s, I, -2, 3)
    if r.random() < .3: dt = r.choice([np.uint8, np.uint16, np.uint32, np.uint64, np.int8, np.int16])
    o = b.op("Unique", b.inp(v.astype(dt)), n=4, axis=a, sorted=1)
    b.out(*o)
@gen(w=.4, min=13)
def Dropout(b, r): b.out(b.op("Dropout", b.inp(fl(r, shape(r, 1, 4)))))
EQ = ["ij,jk->ik", "bij,bjk->bik", "ij->ji", "ii->i", "ii", "ij->", "i,j->ij", "bhid,bhjd->bhij", "ij,ij->i", "...ij,...jk->...ik", "abc,cd->abd", "ij,jk,kl->il", "bi,bi->b", "ibnd,jbnd->bnij", "a...b->...ab", "bij->bj", "i,i", "ij,j"]
@gen(w=1.5, min=12)
def Einsum(b, r):
    e = r.choice(EQ); sz = {}; ins = []; el = shape(r, 0, 2, m=4)
    for t in e.split("->")[0].split(","):
        s = []
        i = 0
        while i < len(t):
            if t[i] == ".": s += list(el); i += 3
            else: s.append(sz.setdefault(t[i], dim(r, 5))); i += 1
        ins.append(b.inp(fl(r, tuple(s), r.choice([F])), dyn=False))
    b.out(b.op("Einsum", *ins, equation=e)); b.tol = (1e-3, 1e-3)
@gen(w=1.5, min=13)
def Resize(b, r):
    s = (r.choice([1, 2]), r.choice([1, 2]), *shape(r, 1, 2, m=6)); n = len(s)
    mode = "nearest"; ct = r.choice(["asymmetric", "half_pixel", "align_corners", "tf_crop_and_resize"][:2])
    nm = r.choice(["floor", "round_prefer_floor", "ceil", "round_prefer_ceil"]) if ct == "asymmetric" else r.choice(["round_prefer_floor", "floor", "ceil", "round_prefer_ceil"])
    at = dict(mode=mode, coordinate_transformation_mode=ct, nearest_mode=nm)
    x = b.inp(fl(r, s))
    if r.random() < .5: b.out(b.op("Resize", x, None, b.inp(np.array([1, 1] + [r.choice([1, 2, 3, .5]) for _ in s[2:]], F), dyn=False), **at))
    else: b.out(b.op("Resize", x, None, None, b.inp(np.array(list(s[:2]) + [k * r.choice([1, 2, 3]) for k in s[2:]], I), dyn=False), **at))
@gen(min=10)
def QuantizeLinear(b, r):
    s = shape(r, 0, 4); z = np.array(r.randrange(256), np.uint8) if r.random() < .6 else None
    b.out(b.op("QuantizeLinear", b.inp(fl(r, s, lo=-40, hi=40)), b.inp(np.array(r.choice([.25, .5, 1, 2, .1]), F)), b.inp(z) if z is not None else None)); b.ties = 1
@gen(min=19)
def DequantizeLinear(b, r):
    s = shape(r, 1, 4); dt = np.dtype(r.choice([np.uint8, np.int8])); z = it(r, (), dt, 0, 100) if r.random() < .6 else None
    b.out(b.op("DequantizeLinear", b.inp(it(r, s, dt, -128, 255)), b.inp(np.array(round(r.uniform(.01, 3), 3), F)), b.inp(z) if z is not None else None))
@gen(w=.7, min=11)
def DynamicQuantizeLinear(b, r): b.out(*b.op("DynamicQuantizeLinear", b.inp(fl(r, shape(r, 1, 3), lo=r.choice([-5, .5]), hi=7)), n=3)); b.ties = 1
@gen(w=.7, min=10)
def QLinearMatMul(b, r):
    m, k, n = dim(r), dim(r), dim(r); d1, d2 = [np.dtype(r.choice([np.uint8, np.int8])) for _ in "ab"]
    d2 = d1
    q = lambda s, d: [b.inp(it(r, s, d, -128, 255)), b.inp(np.array(round(r.uniform(.01, .5), 3), F)), b.inp(it(r, (), d, 0, 20))]
    b.out(b.op("QLinearMatMul", *q((m, k), d1), *q((k, n), d2), b.inp(np.array(round(r.uniform(1, 8), 2), F)), b.inp(it(r, (), d1, 0, 20)))); b.ties = 1
@gen("BlackmanWindow", "HammingWindow", "HannWindow", w=.3, min=17)
def window(b, r, name): b.out(b.op(name, b.inp(np.array(r.randint(3, 20), r.choice([np.int32, I]))), periodic=r.choice([None, 0, 1]))); b.tol = (1e-4, 1e-4)
@gen(w=1, min=20)
def GridSample(b, r):
    nd = r.choice([2, 2, 3]); n, c = r.choice([1, 2]), r.choice([1, 2]); sp, so = shape(r, nd, nd, m=5), shape(r, nd, nd, m=5)
    m20 = b.opset >= 20; q = fl(r, (n, *so, nd), lo=-1.3, hi=1.3); far = r.random() < .4
    if far:
        for k in range(r.randint(1, 3)): q.reshape(-1)[r.randrange(q.size)] = r.choice([-7, 5, -1e3, 1e6, 3e9, -1e12, 1e20])
    b.out(b.op("GridSample", b.inp(fl(r, (n, c, *sp)), dyn=[0]), b.inp(q, dyn=[0, nd + 1]), align_corners=r.choice([None, 0, 1]), mode=r.choice(["linear", "nearest", *["cubic"] * (nd == 2 and not far)] if m20 else ["bilinear", "nearest", *["bicubic"] * (nd == 2 and not far)]), padding_mode=r.choice(["zeros", "border"]))); b.ties = 1
    b.tol = (1e-3, 1e-3)
    # Cubic with borders: the operator leaves open whether the position or its neighbours are clamped.
    for a in b.nodes[-1].attribute:
        if a.name == "padding_mode" and any(x.s in (b"cubic", b"bicubic") for x in b.nodes[-1].attribute): a.s = b"zeros"
@gen(w=.6, min=11)
def NonMaxSuppression(b, r):
    nb, k, c = r.choice([1, 2]), r.randint(1, 8), r.choice([1, 2]); g = rng(r)
    p = g.uniform(0, 1, (nb, k, 2)); q = p + g.uniform(.05, .6, (nb, k, 2)); bx = np.concatenate([p, q], -1).astype(F)
    sc = g.permutation(nb * c * k).reshape(nb, c, k).astype(F) / (nb * c * k)
    sel = [b.inp(np.array([r.randint(1, 5)], I)), b.inp(np.array([r.choice([.3, .5, .7])], F)), b.inp(np.array([r.choice([0., .2, .4])], F))]
    b.out(b.op("NonMaxSuppression", b.inp(bx), b.inp(sc), *sel, center_point_box=None))
@gen("LSTM", "GRU", "RNN", w=1.2, min=14)
def rnn(b, r, name):
    g = {"LSTM": 4, "GRU": 3, "RNN": 1}[name]; d = r.choice(["forward", "reverse", "bidirectional"]); nd = 2 if d == "bidirectional" else 1
    t, n, i, h = r.randint(1, 5), r.randint(1, 3), r.randint(1, 4), r.randint(1, 5)
    u = lambda s: b.inp(fl(r, s, lo=-1, hi=1), const=True)
    X = b.inp(fl(r, (t, n, i))); W, R = u((nd, g * h, i)), u((nd, g * h, h)); bias = u((nd, 2 * g * h)) if r.random() < .7 else None
    h0 = b.inp(fl(r, (nd, n, h), lo=-1, hi=1)) if r.random() < .5 else None
    ins = [X, W, R, bias, None, h0]
    if name == "LSTM":
        ins.append(b.inp(fl(r, (nd, n, h), lo=-1, hi=1)) if r.random() < .5 else None)
        if r.random() < .4: ins.append(u((nd, 3 * h)))
    at = dict(hidden_size=h, direction=d)
    if name == "GRU": at["linear_before_reset"] = r.choice([None, 0, 1])
    b.check = rnn_ref(name, at, ins)
    o = b.op(name, *ins, n=3 if name == "LSTM" else 2, **at); b.out(*o); b.tol = (1e-3, 1e-4)
def rnn_ref(name, at, ins):
    def f(b):
        v = lambda i: b.vals[ins[i]].astype(np.float64) if i < len(ins) and ins[i] else None
        X, W, R, Bi, h0, c0, P = v(0), v(1), v(2), v(3), v(5), v(6), v(7); nd, h = W.shape[0], at["hidden_size"]; t, n, _ = X.shape
        sg = lambda x: 1 / (1 + np.exp(-x)); Y = np.zeros((t, nd, n, h)); Yh = np.zeros((nd, n, h)); Yc = np.zeros((nd, n, h))
        for d in range(nd):
            rev = at["direction"] == "reverse" or d == 1
            H = h0[d] if h0 is not None else np.zeros((n, h)); C = c0[d] if name == "LSTM" and c0 is not None else np.zeros((n, h))
            g = W.shape[1] // h; wb = Bi[d][:g * h] if Bi is not None else np.zeros(g * h); rb = Bi[d][g * h:] if Bi is not None else np.zeros(g * h)
            for s in (range(t - 1, -1, -1) if rev else range(t)):
                x = X[s] @ W[d].T + wb; y = H @ R[d].T + rb
                q = lambda a, k: a[:, k * h:(k + 1) * h]
                if name == "RNN": H = np.tanh(x + y)
                elif name == "GRU":
                    z, rr = sg(q(x, 0) + q(y, 0)), sg(q(x, 1) + q(y, 1))
                    hh = np.tanh(q(x, 2) + rr * q(y, 2)) if at.get("linear_before_reset") else np.tanh(q(x, 2) + (rr * H) @ R[d][2 * h:].T + rb[2 * h:])
                    H = (1 - z) * hh + z * H
                else:
                    p = P[d].reshape(3, h) if P is not None else np.zeros((3, h)); e = x + y
                    i_, f_ = sg(q(e, 0) + p[0] * C), sg(q(e, 2) + p[2] * C); C = f_ * C + i_ * np.tanh(q(e, 3)); o = sg(q(e, 1) + p[1] * C); H = o * np.tanh(C)
                Y[s, d] = H
            Yh[d], Yc[d] = H, C
        return [x.astype(F) for x in ([Y, Yh, Yc] if name == "LSTM" else [Y, Yh])]
    return f

IT = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]
def edge(r, s, dt):
    """Values over the whole type: beyond the range of the signed type for unsigned ones."""
    ii = np.iinfo(dt); return it(r, s, dt, int(ii.min), int(ii.max), extreme=.5)
TYPED = {}
def typed(*names, dts=IT):
    def f(h):
        for n in names: TYPED[n] = (h, dts)
        return h
    return f
@typed("Less", "Greater", "Equal", "LessOrEqual", "GreaterOrEqual")
def t_cmp(b, r, n, dt):
    sa, sb = bpair(r); x, y = edge(r, sa, dt), edge(r, sb, dt)
    if sa == sb: y = np.where(bo(r, sa), x, y).astype(dt)
    b.out(b.op(n, b.inp(x), b.inp(y)))
@typed("Add", "Sub", "Mul", "BitwiseAnd", "BitwiseOr")
def t_bin(b, r, n, dt):
    sa, sb = bpair(r); b.out(b.op(n, b.inp(edge(r, sa, dt)), b.inp(edge(r, sb, dt))))
@typed("Div", "Mod")
def t_div(b, r, n, dt):
    sa, sb = bpair(r); x, y = edge(r, sa, dt), edge(r, sb, dt); dt = np.dtype(dt)
    if n == "Div" and dt.kind == "i": x, y = x & np.iinfo(dt).max, y & np.iinfo(dt).max
    y = np.where((y == 0) | (y == -1 if dt.kind == "i" else False), 3, y).astype(dt)
    b.out(b.op(n, b.inp(x), b.inp(y)))
@typed("Max", "Min")
def t_max(b, r, n, dt):
    sa, sb = bpair(r); b.out(b.op(n, *[b.inp(edge(r, s, dt)) for s in (sa, sb, sb)[:r.randint(1, 3)]]))
@typed("ReduceMax", "ReduceMin", "ReduceSum", "ReduceProd", "ReduceMean", "ReduceL1", dts=[np.int32, np.int64, np.uint32, np.uint64])
def t_red(b, r, n, dt):
    s = shape(r, 1, 4); x = edge(r, s, dt) if n in ("ReduceMax", "ReduceMin") else it(r, s, dt, -3, 3)
    if n in ("ReduceMax", "ReduceMin") and r.random() < .4: x = edge(r, s, np.uint8 if b.folded else np.int8)
    a = axes_of(r, len(s)); b.out(b.op(n, b.inp(x), b.inp(ci(r, a), const=True) if b.opset >= 18 or n == "ReduceSum" else None, keepdims=r.choice([0, 1])) if b.opset >= 18 or n == "ReduceSum" else b.op(n, b.inp(x), axes=a, keepdims=r.choice([0, 1])))
@typed("ArgMax", "ArgMin", dts=IT[:4])
def t_arg(b, r, n, dt):
    s = shape(r, 1, 4); b.out(b.op(n, b.inp(edge(r, s, dt)), axis=ax(r, len(s)), keepdims=r.choice([0, 1])))
@typed("Clip")
def t_clip(b, r, n, dt):
    lo, hi = sorted(int(x) for x in edge(r, (2,), dt)); b.out(b.op(n, b.inp(edge(r, shape(r), dt)), b.inp(np.array(lo, dt)) if r.random() < .8 else None, b.inp(np.array(hi, dt)) if r.random() < .8 else None))
@typed("Abs", "BitwiseNot", "Identity")
def t_un(b, r, n, dt): b.out(b.op(n, b.inp(edge(r, shape(r), dt))))
@typed("Neg", "Relu", "Sign", "BitwiseXor", dts=[np.int8, np.int16, np.int32, np.int64])
def t_sig(b, r, n, dt): s = shape(r); b.out(b.op(n, *[b.inp(edge(r, s, dt)) for _ in range(1 + (n == "BitwiseXor"))]))
@typed("MatMul", "Gemm", dts=[np.int32, np.int64, np.uint32, np.uint64])
def t_mm(b, r, n, dt):
    m, k, q = dim(r), dim(r), dim(r); x, y = b.inp(it(r, (m, k), dt, -9, 99)), b.inp(it(r, (k, q), dt, -9, 99))
    b.out(b.op(n, x, y) if n == "MatMul" else b.op(n, x, y, b.inp(it(r, (m, q), dt, -9, 99))))
@typed("CumSum", dts=[np.int32, np.int64, np.uint32, np.uint64])
def t_cum(b, r, n, dt):
    s = shape(r); b.out(b.op(n, b.inp(it(r, s, dt, -9, 99)), b.inp(np.array(ax(r, len(s)), I)), exclusive=r.choice([0, 1]), reverse=r.choice([0, 1])))
@typed("Transpose", "Concat", "Slice", "Pad", "Gather", "Where", "Tile", "Expand", "Split", "Reshape", "Trilu", "ScatterND", "ConstantOfShape", "OneHot", "Compress", "DepthToSpace", "GatherElements", "ScatterElements", "ReverseSequence", "Unsqueeze", "Flatten", "GatherND", dts=IT + [bool])
def t_move(b, r, n, dt):
    v = lambda s: b.inp(bo(r, s) if dt is bool else edge(r, s, dt)); s = shape(r, 2, 4, 5); k = lambda a: b.inp(np.array(a, I), const=True)
    if n == "Transpose": o = b.op(n, v(s), perm=r.sample(range(len(s)), len(s)))
    elif n == "Concat": o = b.op(n, v(s), v(s), v(s), axis=ax(r, len(s)))
    elif n == "Slice": o = b.op(n, v(s), k([0]), k([r.randint(1, s[0])]), k([0]), k([1]))
    elif n == "Pad": o = b.op(n, v(s), k([r.randint(0, 2) for _ in range(2 * len(s))]), b.inp(np.array(1 if dt is bool else np.iinfo(dt).max, dt), const=r.choice([True, None])))
    elif n == "Gather": o = b.op(n, v(s), b.inp(it(r, (2,), I, -s[0], s[0] - 1)))
    elif n == "Where": o = b.op(n, b.inp(bo(r, s)), v(s), v(s[1:]))
    elif n == "Tile": o = b.op(n, v(s), k([r.randint(1, 3) for _ in s]))
    elif n == "Expand": o = b.op(n, v((1,) + s), k((3,) + s))
    elif n == "Split": o = b.op(n, v((4,) + s), k([1, 3]), n=2)
    elif n == "Reshape": o = b.op(n, v(s), k([-1, s[-1]]))
    elif n == "Unsqueeze": o = b.op(n, v(s), k([1]))
    elif n == "Flatten": o = b.op(n, v(s))
    elif n == "Trilu": o = b.op(n, v(s), upper=r.choice([0, 1]))
    elif n == "ScatterND": o = b.op(n, v(s), k([[0], [s[0] - 1]][:1 + (s[0] > 1)]), v((1 + (s[0] > 1),) + s[1:]))
    elif n == "GatherND": o = b.op(n, v(s), k([[0], [s[0] - 1]]))
    elif n == "ConstantOfShape": o = b.op(n, b.inp(np.array(s, I), const=True), value=onnx.numpy_helper.from_array(np.array([1 if dt is bool else np.iinfo(dt).max], dt)))
    elif n == "OneHot": o = b.op(n, b.inp(it(r, s, I, 0, 3)), b.inp(np.array(4, I), const=True), v((2,)))
    elif n == "Compress": o = b.op(n, v(s), b.inp(np.array([True] * s[0])), axis=0)
    elif n == "DepthToSpace": o = b.op(n, b.inp(bo(r, (2, 8, 3, 2)) if dt is bool else edge(r, (2, 8, 3, 2), dt), dyn=False), blocksize=2)
    elif n == "GatherElements": o = b.op(n, v(s), b.inp(it(r, s, I, 0, s[0] - 1)))
    elif n == "ScatterElements": o = b.op(n, v(s), b.inp(it(r, (1,) + s[1:], I, 0, s[0] - 1)), v((1,) + s[1:]))
    elif n == "ReverseSequence": o = b.op(n, v(s), b.inp(it(r, (s[1],), I, 1, s[0])))
    b.out(*(o if isinstance(o, (list, tuple)) else [o]))
UNSIGNED = {"Identity", "Transpose", "Concat", "Slice", "Pad", "Gather", "Where", "Tile", "Expand", "Split", "Reshape", "Trilu", "ScatterND", "ConstantOfShape", "OneHot", "Compress", "GatherElements", "ScatterElements", "ReverseSequence", "Unsqueeze", "Flatten", "GatherND"}
@gen(min=18, w=8)
def Types(b, r):
    """Operators over every integer type and Booleans."""
    n = r.choice(list(TYPED)); h, dts = TYPED[n]; dt = r.choice(dts); e = os.environ.get("OMF_TY")
    if e: n, dt = r.choice(e.split()).split(":"); h = TYPED[n][0]; dt = bool if dt == "bool" else np.dtype(dt).type
    b.folded = np.dtype(dt).kind == "u" and n not in UNSIGNED  # unsigned arithmetic is done at compile time only
    b.sub = f"{n} of {np.dtype(dt)}"; h(b, r, n, dt)

def make(r, name=None, names=None, opset=None):
    """A finished case: name may name a generator."""
    for _ in range(200):
        nm = name or r.choices(names or list(GEN), [GEN[k][2] for k in (names or GEN)])[0]
        fn, key, _, mn = GEN[nm]
        b = B(r, opset)
        if b.opset < mn: b.opset = r.choice([o for o in (13, 14, 15, 16, 17, 18, 19, 20, 21, 22) if o >= mn])
        try:
            import inspect
            if len(inspect.signature(fn).parameters) == 3 and "n" not in inspect.signature(fn).parameters: fn(b, r, nm)
            else: fn(b, r)
            b.name = getattr(b, "sub", nm)
            finish(b)
            try: b.ref = reference(b)
            except Skip: raise
            except Exception as e: raise Skip(e)  # the evaluator cannot judge this case
            return b
        except Skip: continue
    raise RuntimeError("no case for " + str(name))
