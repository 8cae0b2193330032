"""Generators of graphs of several operators, around what the compiler's rewriting passes look for."""
from core import *
import ops
from ops import F, I, FD, FI, dim, shape, rng, fl, it, bo, val, ax, axes_of, bshape, conv_ref, bdyn
GG = {}
def gen(w=1, min=13):
    def f(fn): GG[fn.__name__] = (fn, w, min); return fn
    return f
from onnx.reference.op_run import OpRun
class G(B):
    """A graph under construction whose values are computed as it grows."""
    empties = False
    def __init__(s, r, opset=None):
        super().__init__(r, opset); s.v = {}; s.tol = (1e-3, 1e-4)
    def inp(s, a, const=None, dyn=True):
        x = super().inp(a, const, dyn); s.v[x] = s.vals[x]; return x
    def c(s, a): return s.inp(np.asarray(a), const=True)
    def i(s, *a): return s.inp(np.array(a, I), const=True)
    def e(s, t, *ins, n=1, ref=None, **at):
        o = s.op(t, *ins, n=n, **at); node = s.nodes[-1]
        if ref: y = ref(*[s.v[i] for i in ins if i])
        else:
            ni = [x for x in node.input if x]
            g = oh.make_graph([node], "g", [oh.make_tensor_value_info(x, ot(s.v[x].dtype), list(s.v[x].shape)) for x in dict.fromkeys(ni)], [onnx.ValueInfoProto(name=x) for x in node.output])
            m = oh.make_model(g, opset_imports=[oh.make_opsetid("", s.opset)], ir_version=8)
            try:
                with np.errstate(all="ignore"): y = ReferenceEvaluator(m).run(None, {x: s.v[x] for x in dict.fromkeys(ni)})
            except Exception as ex: raise Skip(ex)
        for k, a in zip(node.output, y):
            a = np.asarray(a); s.v[k] = a
            if a.size == 0 and not s.empties or a.size and a.dtype.kind == "f" and not (np.isfinite(a).all() and np.abs(a).max() < 1e5): raise Skip()
            if a.size > 20000: raise Skip()
        return o
    def sh(s, x): return s.v[x].shape
    def rank(s, x): return s.v[x].ndim
    def margin(s, *d):
        """The values a discontinuous operator tells apart must not be close."""
        for a in d:
            if np.any((np.abs(a) < 1e-3) & (a != 0)) or np.any(~np.isfinite(a)): raise Skip()
SAFE1 = ["Abs", "Neg", "Relu", "Sigmoid", "Tanh", "Exp", "Sqrt", "Sin", "Cos", "Erf", "Softplus", "LeakyRelu", "Elu", "HardSigmoid", "Atan", "Softsign", "Selu", "Celu"]
def unary(g, r, x, names=SAFE1):
    t = r.choice(names); a = g.v[x]; at = {}
    if t == "Sqrt" and a.min() < .01: t = "Abs"
    if t == "Exp" and a.max() > 4 or t in ("Sin", "Cos") and np.abs(a).max() > 50: t = "Tanh"
    if t == "LeakyRelu": at = dict(alpha=r.choice([None, .2]))
    if t == "Elu": at = dict(alpha=r.choice([None, .5]))
    return g.e(t, x, **at)
def binary(g, r, x, y, names=("Add", "Sub", "Mul", "Max", "Min", "Div")):
    t = r.choice(names)
    if t == "Div" and np.abs(g.v[y]).min() < .05: t = "Mul"
    return g.e(t, x, y)
def finp(g, r, s, full=None, dt=F, **k):
    a = fl(r, s, dt); return g.inp(a, dyn=bdyn(full, a) if full is not None else True, **k)
@gen(3)
def elementwise(g, r):
    """Chains and DAGs of element-wise operators."""
    s = shape(r, 1, 4); xs = [finp(g, r, s)]
    for _ in range(r.randint(2, 7)):
        x = xs[-1] if r.random() < .8 else r.choice(xs); p = r.random()
        if p < .4: y = unary(g, r, x)
        elif p < .9:
            o = r.choice(xs) if r.random() < .35 else finp(g, r, bshape(r, g.sh(x)), g.sh(x))
            y = binary(g, r, *((x, o) if r.random() < .6 else (o, x)))
        elif p < .95:
            c = g.inp(bo(r, s)); y = g.e("Where", c, x, r.choice(xs))
        else: y = g.e("Clip", x, g.c(F(-1.5)), g.c(F(r.choice([.5, 2]))))
        xs.append(y)
    g.out(*[xs[-1]] + ([r.choice(xs[1:-1])] if len(xs) > 2 and r.random() < .3 else []))
TU = ["Atan", "Ceil", "Cos", "Cosh", "Elu", "Erf", "Exp", "Floor", "HardSigmoid", "LeakyRelu", "Log", "Neg", "Reciprocal", "Relu", "Round", "Selu", "Sigmoid", "Sign", "Sin", "Sinh", "Softplus", "Softsign", "Sqrt", "Tan", "Tanh"]
@gen(2)
def transposes(g, r):
    """Transpose chains with element-wise operators, casts, concatenations and reductions between."""
    s = shape(r, 1, 4); n = len(s); x = finp(g, r, s); perm = lambda: r.sample(range(n), n)
    for _ in range(r.randint(2, 6)):
        p = r.random()
        if p < .5: x = g.e("Transpose", x, perm=perm() if r.random() < .9 else None)
        elif p < .75:
            t = r.choice(TU); a = g.v[x]
            if t in ("Log", "Sqrt", "Reciprocal") and a.min() < .05 or t in ("Exp", "Cosh", "Sinh") and np.abs(a).max() > 4 or t == "Tan" and np.abs(a).max() > 1.4: t = "Neg"
            if t in ("Ceil", "Floor"): g.margin(a - np.round(a))
            if t == "Round": g.margin(a - np.floor(a) - .5)
            if t == "Sign": g.margin(a)
            x = g.e(t, x)
        elif p < .85:
            q = perm(); t = [0] * n; sx = g.sh(x)
            y = finp(g, r, [sx[q.index(i)] for i in range(n)]); z = finp(g, r, [sx[q.index(i)] for i in range(n)])
            x = g.e("Concat", g.e("Transpose", y, perm=q), g.e("Transpose", z, perm=q), *([x] if r.random() < .4 else []), axis=ax(r, n))
        elif p < .92: x = g.e("Cast", g.e("Cast", x, to=T.DOUBLE), to=T.FLOAT)
        else: x = g.e("Add", x, finp(g, r, bshape(r, g.sh(x)), g.sh(x)))
    g.out(x)
def reshape_to(g, r, x, shp):
    shp = list(shp)
    if r.random() < .3 and shp: shp[r.randrange(len(shp))] = -1
    return g.e("Reshape", x, g.i(*shp))
@gen(2.5)
def reshapes(g, r):
    """Reshape, Squeeze, Unsqueeze, Flatten, Expand, Identity, Transpose chains."""
    x = finp(g, r, shape(r, 1, 4))
    for _ in range(r.randint(2, 6)):
        s = g.sh(x); n = len(s); p = r.random()
        if p < .35: x = reshape_to(g, r, x, ops.factor(r, int(np.prod(s))) or [1])
        elif p < .5: a = sorted(r.sample(range(n + 1), 1)); x = g.e("Unsqueeze", x, g.i(*[k - n - 1 if r.random() < .3 else k for k in a]))
        elif p < .65:
            k = [i for i, d in enumerate(s) if d == 1]
            if k and n > 1: x = g.e("Squeeze", x, g.i(r.choice(k)))
        elif p < .72: x = g.e("Flatten", x, axis=r.randint(0, n))
        elif p < .8: x = g.e("Identity", x)
        elif p < .88: x = unary(g, r, x)
        elif p < .94 and n: x = g.e("Transpose", x, perm=r.sample(range(n), n))
        else: x = g.e("Expand", x, g.i(*[r.choice([1, d]) if d > 1 else r.choice([1, 2, 3]) for d in s] or [2]))
    if len(g.nodes) < 2: raise Skip()
    g.out(x)
@gen(2.5)
def shapes(g, r):
    """Shapes computed from the shapes of other values (Shape, Gather, Slice, Concat, Cast) and consumed by Reshape, Expand, ConstantOfShape, Slice, Tile."""
    s = shape(r, 2, 4); n = len(s); x = finp(g, r, s); sx = g.e("Shape", x)
    def d(i):
        p = r.random()
        if p < .45: return g.e("Gather", sx, g.i(i - n if r.random() < .3 else i), axis=0)
        if p < .7: return g.e("Slice", sx, g.i(i), g.i(i + 1), g.i(0))
        if p < .85: return g.e("Unsqueeze", g.e("Gather", sx, g.c(np.array(i, I))), g.i(0))
        return g.e("Cast", g.e("Cast", g.e("Gather", sx, g.i(i)), to=T.FLOAT), to=T.INT64) if r.random() < .5 else g.e("Shape", x, start=i, end=i + 1) if g.opset >= 15 else g.e("Gather", sx, g.i(i))
    k = r.randint(0, 5)
    if k == 0:  # merge two dimensions or split one
        i = r.randrange(n - 1); y = g.e("Reshape", x, g.e("Concat", *[d(j) for j in range(i)], g.i(-1), *[d(j) for j in range(i + 2, n)], axis=0) if n > 2 else g.i(-1))
    elif k == 1: y = g.e("Reshape", x, g.e("Concat", *[d(j) if r.random() < .6 or 0 in (s[j],) else g.i(s[j]) for j in r.sample(range(n), n)], axis=0))
    elif k == 2: y = g.e("Add", g.e("ConstantOfShape", g.e("Concat", *[d(j) for j in range(n)], axis=0), value=nh.from_array(np.array([1.5], F))), x)
    elif k == 3: y = g.e("Expand", finp(g, r, tuple(1 if r.random() < .7 else q for q in s), s), sx if r.random() < .3 else g.e("Concat", *[d(j) for j in range(n)], axis=0))
    elif k == 4: y = g.e("Reshape", x, g.e("Concat", g.e("Mul", d(0), d(1)) if n > 1 else d(0), *[d(j) for j in range(2, n)], *([g.i(1)] if r.random() < .3 else []), axis=0))
    else:
        q = g.e("Concat", d(0), g.i(-1), axis=0); y = g.e("Reshape", g.e("Transpose", x, perm=[0, *r.sample(range(1, n), n - 1)]), q)
    if r.random() < .3: g.out(g.e("Concat", sx, g.e("Shape", y), axis=0))
    if r.random() < .1: g.out(g.e("Gather", sx, g.c(it(r, shape(r, 0, 2, m=3), I, -n, n - 1))))
    if r.random() < .5: y = unary(g, r, y)
    g.out(y)
@gen(2)
def matmuls(g, r):
    """MatMul with additions, scalings, divisions and reshapes around it."""
    m, k, n = dim(r, 9), dim(r, 9), dim(r, 9); bs = shape(r, 0, 2, m=4) if r.random() < .5 else ()
    x = finp(g, r, (*bs, m, k)); kk = r.randint(0, 5)
    w = finp(g, r, (k, n), const=True if r.random() < .6 else None)
    if kk == 0: y = g.e("Add", *((g.e("MatMul", x, w), finp(g, r, (n,))) if r.random() < .6 else (finp(g, r, (n,)), g.e("MatMul", x, w))))
    elif kk == 1:
        a = g.e("MatMul", g.e("Mul", x, g.c(fl(r, r.choice([(), (1,)])))), w); y = g.e("Add", a, finp(g, r, bshape(r, g.sh(a)), g.sh(a)))
    elif kk == 2: y = g.e("Div", g.e("MatMul", x, w), g.c(F(r.choice([2, .5, 4]))))
    elif kk == 3: y = g.e("Reshape", g.e("MatMul", g.e("Reshape", x, g.i(-1, k)), w), g.i(*bs, m, n))
    elif kk == 4:
        ta, tb = r.randint(0, 1), r.randint(0, 1); a = finp(g, r, (k, m) if ta else (m, k)); c = finp(g, r, (n, k) if tb else (k, n), const=None)
        y = g.e("Gemm", a, c, *([finp(g, r, bshape(r, (m, n)))] if r.random() < .5 else []), transA=ta, transB=tb, alpha=r.choice([None, .5]), beta=r.choice([None, 2.]))
        y = g.e("Add", y, finp(g, r, r.choice([(n,), (1, n), (m, n)]), (m, n)))
    else:
        h = r.choice([1, 2, 3]); d_, t = dim(r, 5), dim(r, 5); X = finp(g, r, (r.choice([1, 2]), t, h * d_)); N = g.sh(X)[0]
        pr = lambda: g.e("Transpose", g.e("Reshape", g.e("Add", g.e("MatMul", X, g.c(fl(r, (h * d_, h * d_), lo=-.5, hi=.5))), g.c(fl(r, (h * d_,)))), g.i(N, t, h, d_)), perm=[0, 2, 1, 3])
        q, ke = pr(), g.e("Transpose", pr(), perm=[0, 1, 3, 2])
        if r.random() < .5: q = g.e(r.choice(["Div", "Mul"]), q, g.c(F(2)))
        sc = g.e("MatMul", q, ke)
        if r.random() < .5: sc = g.e(r.choice(["Div", "Mul"]), sc, g.c(F(1.5)))
        y = g.e("MatMul", g.e("Softmax", sc, axis=-1), pr())
        if r.random() < .5: y = g.e("Reshape", g.e("Transpose", y, perm=[0, 2, 1, 3]), g.i(N, t, h * d_))
    if r.random() < .3: y = unary(g, r, y)
    g.out(y)
def conv(g, r, x, o, k=None, group=1, bias=None, const=True, **at):
    s = g.sh(x); nd = len(s) - 2; k = k or [r.choice([1, 1, 2, 3]) for _ in range(nd)]
    w = g.inp(fl(r, (o, s[1] // group, *k), lo=-.7, hi=.7), const=const)
    ins = [x, w] + ([g.inp(fl(r, (o,)), const=const)] if (r.random() < .5 if bias is None else bias) else [])
    return g.e("Conv", *ins, ref=lambda *a: [conv_ref(*a, k=k, group=group, **at)], group=group, **at)
@gen(3)
def convs(g, r):
    """Convolutions with biases, batch normalisation, scalings, activations, pooling, padding and parallel branches."""
    nd = r.choice([1, 2, 2, 2]); c = r.choice([1, 2, 3, 4]); o = r.choice([1, 2, 3, 4, 5])
    x = finp(g, r, (r.choice([1, 2]), c, *[r.choice([4, 5, 6, 7]) for _ in range(nd)])); kk = r.randint(0, 7); one = [1] * nd
    pads = lambda: [r.randint(0, 1) for _ in range(2 * nd)] if r.random() < .5 else None
    def bn(x, *a):
        e = r.choice([None, .1]); q = lambda v, x: v.reshape((-1, *[1] * (x.ndim - 2)))
        return g.e("BatchNormalization", x, *a, epsilon=e, ref=lambda x, sc, b, m, v: [((x - q(m, x)) / np.sqrt(q(v, x) + F(e or 1e-5)) * q(sc, x) + q(b, x)).astype(F)])
    B_ = lambda ch: [g.c(fl(r, (ch,), lo=.5, hi=1.5)), g.c(fl(r, (ch,))), g.c(fl(r, (ch,))), g.c(fl(r, (ch,), lo=.5, hi=2))]
    if kk == 0: y = g.e("Add", conv(g, r, x, o, pads=pads()), g.c(fl(r, r.choice([(o, *one), (1, o, *one), (), (1,)]))))
    elif kk == 1: y = g.e("Mul", conv(g, r, x, o, pads=pads()), g.c(fl(r, r.choice([(o, *one), (1, o, *one)]))))
    elif kk == 2: y = bn(conv(g, r, x, o, pads=pads(), strides=[r.choice([1, 2])] * nd), *B_(o))
    elif kk == 3: y = conv(g, r, bn(x, *B_(c)), o)
    elif kk == 4:
        k = [r.choice([1, 2, 3]) for _ in range(nd)]; p = pads(); n = r.randint(2, 3); gr = c if r.random() < .2 else 1; q = r.choice([1, 2, 3])
        ys = [conv(g, r, x, q if q % gr == 0 else q * gr, k=k, pads=p, group=gr, bias=bool(i) if r.random() < .15 else True) for i in range(n)]; z = r.random()
        y = g.e("Concat", *(r.sample(ys, n) if z < .7 else [*r.sample(ys, n), r.choice(ys)] if z < .8 else [unary(g, r, v) for v in ys]), axis=r.choice([1, 1, 1, -nd - 1]))
        if r.random() < .15: g.out(r.choice(ys))

    elif kk == 5: y = g.e("MaxPool", g.e("Relu", x), kernel_shape=[2] * nd, strides=[r.choice([1, 2])] * nd)
    elif kk == 6:
        q = [0, 0, *[r.randint(0, 2) for _ in range(nd)]] * 2; y = conv(g, r, g.e("Pad", x, g.i(*q), g.c(F(0)) if r.random() < .6 else None, mode="constant"), o)
    else: y = conv(g, r, x, o, k=one, strides=[1] * nd, const=r.choice([True, None])); y = g.e("Relu", y); y = conv(g, r, y, r.choice([1, 2]), k=one)
    if r.random() < .4: y = unary(g, r, y)
    g.out(y)
@gen(2)
def layernorm(g, r):
    """Layer and RMS normalisation written out, and what looks like it but is not."""
    s = shape(r, 2, 4, m=8); n = len(s); a = r.randint(1, n - 1) if r.random() < .4 else n - 1; axs = list(range(a, n)); x = finp(g, r, s, dt=F)
    if int(np.prod(s[a:])) < 2: raise Skip()
    RM = lambda v, axs=axs, kd=1: g.e("ReduceMean", v, g.i(*[q - n if r.random() < .5 else q for q in axs]), keepdims=kd) if g.opset >= 18 else g.e("ReduceMean", v, axes=axs, keepdims=kd)
    rms = r.random() < .3; d = x if rms else g.e("Sub", x, RM(x))
    wrong = r.random() < .2
    sq = g.e("Mul", d, d) if r.random() < .6 else g.e("Pow", d, g.c(F(2)))
    v = RM(sq, axs if not wrong else [n - 1 if a != n - 1 else 0])
    sd = g.e("Sqrt", g.e("Add", *r.sample([v, g.c(F(r.choice([1e-5, .01, .1])))], 2)))
    if np.min(g.v[sd]) < .05: raise Skip()
    y = g.e("Div", d, sd) if r.random() < .6 else g.e("Mul", d, g.e("Reciprocal", sd)) if r.random() < .7 else g.e("Mul", d, g.e("Div", g.c(F(1)), sd))
    t = s[a:] if r.random() < .7 else tuple(bshape(r, s[a:])) or (1,) if r.random() < .7 else (r.choice([1, 2]), *s)
    sc = lambda: (lambda a: g.inp(a, const=r.choice([True, None]), dyn=bdyn(s, a)))(fl(r, t))
    if r.random() < .8: y = g.e("Mul", *r.sample([y, sc()], 2))
    if r.random() < .7: y = g.e("Add", *r.sample([y, sc()], 2))
    g.out(y, *([sd] if r.random() < .15 else []))
@gen(2)
def gelu(g, r):
    """Gelu written out (exact and tanh approximation), and near misses."""
    x = finp(g, r, shape(r, 1, 3)); off = lambda v, p=.06: F(v if r.random() > p else v * 1.25); mul = lambda a, b: g.e("Mul", *r.sample([a, b], 2)); add = lambda a, b: g.e("Add", *r.sample([a, b], 2)); c = lambda v: g.c(off(v) if r.random() < .7 else np.array([off(v)], F))
    if r.random() < .6: i = g.e("Erf", g.e("Div", x, c(1.41421354)) if r.random() < .7 else mul(x, c(.70710677)))
    else: i = g.e("Tanh", mul(add(x, mul(g.e("Pow", x, c(3.)) if r.random() < .7 else mul(x, mul(x, x)), c(.044715))), c(.7978845608)))
    o = add(i, c(1.)); k = r.randint(0, 2)
    y = mul(mul(x, c(.5)), o) if k == 0 else mul(x, mul(o, c(.5))) if k == 1 else mul(mul(x, o), c(.5))
    g.out(y)
@gen(1.5)
def splits(g, r):
    """Split, Slice and Concat taken apart and put together; nested and partly empty concatenations."""
    s = list(shape(r, 1, 3, m=8)); n = len(s); a = r.randrange(n); k = r.randint(0, 3)
    if k == 0:
        p = [r.randint(1, 4) for _ in range(r.randint(2, 3))]; s[a] = sum(p); x = finp(g, r, s)
        parts = list(g.e("Split", x, g.i(*p), n=len(p), axis=a)); t = r.choice(["Relu", "Neg", "Sigmoid", "Tanh"])
        parts = [g.e(t if r.random() < .9 else "Abs", q) for q in parts]
        g.out(g.e("Concat", *(parts if r.random() < .7 else parts[::-1]), axis=a) if r.random() < .7 else parts[0], *([parts[1]] if r.random() < .4 else []))
    elif k == 1:
        s[a] = r.randint(2, 8); x = finp(g, r, s); cut = sorted({0, s[a], *[r.randrange(1, s[a]) for _ in range(r.randint(1, 2))]}); lo = cut[:-1]; hi = cut[1:]
        if r.random() < .2: hi = hi[:-1] + [s[a] + 3]
        if r.random() < .2: i = r.randrange(len(lo)); lo = list(lo); lo[i] = max(0, lo[i] - 1)
        sl = [g.e("Slice", x, g.i(p), g.i(q), g.i(a), g.i(1)) for p, q in zip(lo, hi)]
        g.out(g.e("Concat", *(sl if r.random() < .7 else sl[::-1]), axis=a))
    elif k == 2:
        mk = lambda: finp(g, r, [dim(r, 4) if i == a else q for i, q in enumerate(s)])
        g.out(g.e("Concat", mk(), g.e("Concat", mk(), g.e("Concat", mk(), mk(), axis=a if r.random() < .8 or min(s) != max(s) else 0), axis=a), mk(), axis=a))
    else:
        x = finp(g, r, s); y = g.e("Concat", x, finp(g, r, s), axis=a); y = g.e("Slice", y, g.i(0), g.i(s[a]), g.i(a)) if r.random() < .5 else g.e("Gather", y, g.i(*[r.randrange(2 * s[a]) for _ in range(3)]), axis=a)
        g.out(y)
@gen(1.5)
def empties(g, r):
    """Operators whose operands turn out to be empty while the model is compiled, or when it is run."""
    g.empties = True; s = list(shape(r, 1, 3, m=5)); n = len(s); a = r.randrange(n); x = finp(g, r, s)
    def none(x, a):
        q = g.sh(x)[a]; k = r.randrange(q + 1)
        if r.random() < .25 and q: return g.e("Gather", x, g.c(np.zeros((0,), I)), axis=a, ref=lambda v, j: [np.take(v, j, axis=a)])
        lo, hi = r.choice([(0, 0), (k, k), (q, 2**31 - 1), (-1, k - 1 if k < q else 0)])
        return g.e("Slice", x, g.i(lo), g.i(min(hi, max(lo, 0)) if hi < 2**31 - 1 else hi), g.i(a if r.random() < .7 else a - n))
    e = none(x, a)
    if g.v[e].size: raise Skip()
    k = r.randint(0, 11)
    if k <= 2 or k == 11:
        ps = [none(finp(g, r, s), a) for _ in range(r.randint(1, 3))] + [e] + [finp(g, r, s) for _ in range(r.randint(0, 2))]
        r.shuffle(ps); y = g.e("Concat", *ps, axis=a if r.random() < .7 else a - n)
        if r.random() < .3: y = g.e("Concat", y, *r.sample(ps, 1), axis=a)
    elif k == 3: t = r.choice(["ReduceSum", "ReduceProd", "ReduceSumSquare", "ReduceL1", "ReduceL2"]); ks = dict(keepdims=r.randint(0, 1)); y = g.e(t, e, g.i(a), **ks) if g.opset >= 18 or t == "ReduceSum" else g.e(t, e, axes=[a], **ks)
    elif k == 4: y = g.e("Pad", e, g.i(*[r.randint(0, 2) for _ in range(2 * n)]), g.c(F(.5)))
    elif k == 5:
        z = finp(g, r, (3, 4)); z = g.e("Slice", z, g.i(0), g.i(0), g.i(r.randint(0, 1)))
        y = g.e("MatMul", z, finp(g, r, (g.sh(z)[1], 2))) if g.sh(z)[1] else g.e("MatMul", z, g.e("Transpose", z, perm=[1, 0]))
        if r.random() < .6: y = g.e("Add", y, finp(g, r, (1,)))
    elif k == 6: y = g.e("Transpose", e, perm=r.sample(range(n), n)); y = g.e("Shape", y) if r.random() < .5 else g.e("Concat", y, finp(g, r, g.sh(y)[:1] and [q or 2 for q in g.sh(y)]), axis=g.sh(y).index(0)) if g.sh(y).count(0) == 1 else y
    elif k == 7: y = unary(g, r, e) if r.random() < .0 else g.e(r.choice(["Relu", "Neg", "Abs", "Tanh"]), e); y = g.e("Add", y, finp(g, r, [1 if i == a else q for i, q in enumerate(s)], const=True))
    elif k == 8: y = g.e("Size", e, ref=lambda v: [np.array(v.size, I)]); y = g.e("Mul", y, g.e("Shape", e))
    elif k == 9:
        ps = g.e("Split", x, g.i(0, s[a], 0), n=3, axis=a); y = g.e("Concat", *r.sample([ps[0], ps[1], ps[2], x], 4), axis=a)
    else:
        y = g.e("Reshape", e, g.i(-1) if r.random() < .4 else g.i(0, *[r.randint(1, 3)]), **(dict(allowzero=1) if 0 else {})) if r.random() < .5 and n == 1 and 0 else g.e("Expand", g.e("Unsqueeze", e, g.i(0)), g.i(r.randint(1, 3), *g.sh(e)))
    g.out(y, *([e] if r.random() < .2 else []))
@gen(1.5)
def pieces(g, r):
    """Vectors of sizes put together from pieces of one and more elements, known and unknown, and taken apart again."""
    ps = [g.inp(it(r, (1,) if r.random() < .6 else (dim(r, 4),), I, 1, 9), const=r.random() < .25) for _ in range(r.randint(2, 5))]
    if r.random() < .4: ps[r.randrange(len(ps))] = g.e("Shape", finp(g, r, shape(r, 1, 3)))
    c = g.e("Concat", *ps, axis=r.choice([0, -1])); m = g.sh(c)[0]; outs = []
    for _ in range(r.randint(1, 3)):
        i = r.randrange(-m, m); k = r.randint(0, 5); q = c
        if k == 0: y = g.e("Gather", q, g.c(np.array(i if r.random() < .5 else [i], I)), axis=0)
        elif k == 1: y = g.e("Gather", q, g.i(*[r.randrange(-m, m) for _ in range(r.randint(2, 3))]), axis=0)
        elif k <= 3: y = g.e("Slice", q, g.i(i), g.i(i + 1 if i != -1 else 2**63 - 1), g.i(r.choice([0, -1])), *([g.i(1)] if r.random() < .5 else []))
        elif k == 4: y = g.e("Slice", q, g.i(i), g.i(i - 1 if i > 0 else -2**63 if i == 0 or i == -m else i - 1), g.i(0), g.i(r.choice([-1, -1, -2])))
        else: j = r.randrange(-m, m); y = g.e("Slice", q, g.i(i), g.i(r.choice([j, 2**63 - 1, -2**63])), g.i(0), g.i(r.choice([1, 2, -1])))
        if not g.v[y].size: raise Skip()
        if r.random() < .3: y = g.e("Squeeze", y, g.i(0)) if g.sh(y) == (1,) else y
        outs.append(y)
    if r.random() < .4: outs = [g.e("Mul", outs[0], outs[-1])] if len(g.sh(outs[0])) <= 1 and (g.sh(outs[0]) in ((), (1,)) or g.sh(outs[0]) == g.sh(outs[-1])) else outs
    g.out(*outs)
@gen(1.5)
def casts(g, r):
    """Cast chains through concatenations, slices, gathers and comparisons."""
    s = shape(r, 1, 3, m=6); k = r.randint(0, 4)
    if k == 0: x = g.inp(it(r, s, np.int32, -300, 300)); y = g.e("Cast", g.e("Cast", x, to=r.choice([T.INT64, T.FLOAT, T.DOUBLE, T.INT16])), to=r.choice([T.INT32, T.FLOAT, T.INT16]))
    elif k == 1: a = r.randrange(len(s)); y = g.e("Cast", g.e("Concat", g.inp(it(r, s)), g.inp(it(r, s)), axis=a), to=r.choice([T.INT32, T.FLOAT]))
    elif k == 2: y = g.e("Cast", g.e("Slice", g.inp(it(r, s)), g.i(0), g.i(1), g.i(0)), to=r.choice([T.INT32, T.FLOAT]))
    elif k == 3:
        f, t = r.choice([(F, T.DOUBLE), (np.int32, T.INT64), (np.int32, T.FLOAT), (np.int64, T.DOUBLE), (np.int32, T.INT32), (F, T.INT32), (np.float64, T.INT64)])
        y = g.e("Less", g.e("Cast", g.inp(val(r, s, f)), to=t), g.e("Cast", g.inp(val(r, bshape(r, s), f)), to=t))
    else: y = g.e("Cast", g.e("Not", g.e("Cast", g.inp(it(r, s, np.int32, -2, 2)), to=T.BOOL)), to=r.choice([T.FLOAT, T.INT64]))
    g.out(y)
@gen(1.5)
def clips(g, r):
    """Consecutive clips, Where on equal values, powers, dropout, identities, tiles by one."""
    s = shape(r, 1, 3); x = finp(g, r, s); k = r.randint(0, 5)
    lim = lambda: (g.c(F(r.choice([-2, -1, -.5]))) if r.random() < .8 else None, g.c(F(r.choice([.25, 1, 2]))) if r.random() < .8 else None)
    if k == 0:
        for _ in range(r.randint(2, 3)): x = g.e("Clip", x, *lim())
    elif k == 1: x = g.e("Pow", x, g.c(F(r.choice([0, 1, 2, 3, 4, 5, 8, 17]))))
    elif k == 2: x = g.e("Tile", g.e("Identity", x), g.i(*[1 if r.random() < .6 else 2 for _ in s]))
    elif k == 3:
        sx = g.e("Shape", x); x = g.e("Expand", finp(g, r, [1] * len(s)), g.e("Where", g.e("Equal", sx, g.i(-1)), g.e("ConstantOfShape", g.i(len(s)), value=nh.from_array(np.array([1], I))), sx))
    elif k == 4: z = g.e("Max", g.e("Min", x, g.c(F(1))), g.c(F(-1))); x = g.e("Clip", z, *lim())
    else: x = g.e("Neg", g.e("Neg", x)); x = g.e("Mul", x, g.c(np.ones([1] * r.randint(0, 2), F))); x = g.e("Add", x, g.c(np.zeros((), F)))
    if g.nodes[-1].op_type in ("Clip", "Pow", "Tile", "Add") and r.random() < .5: x = unary(g, r, x)
    g.out(x)
@gen(2)
def quantized(g, r):
    """Quantised matrix products, additions and convolutions written with DequantizeLinear and QuantizeLinear."""
    m, k, n = dim(r, 5), dim(r, 5), dim(r, 5); dt = r.choice([np.uint8, np.int8]); z = lambda: g.c(np.array(r.randint(0, 10), dt)); sc = lambda v=None: g.c(F(v or r.choice([.05, .1, .2])))
    dq = lambda s, c=None: g.e("DequantizeLinear", g.inp(it(r, s, dt, -100, 100), const=c), sc(), z())
    y = g.e("MatMul", dq((m, k)), dq((k, n), r.choice([True, None]))) if r.random() < .7 else g.e("Add", dq((m, n)), dq((m, n)))
    q = g.e("QuantizeLinear", y, s := sc(r.choice([.5, 1.])), zp := z())
    t = g.v[y].astype(np.float64) / g.v[s]; fr = np.abs(t - np.floor(t) - .5)
    if fr.min() < 1e-3: raise Skip()
    i = np.iinfo(dt); t = np.rint(t) + g.v[zp]
    if t.min() < i.min or t.max() > i.max: raise Skip()  # known finding: QLinearMatMul does not saturate
    g.out(q if r.random() < .7 else g.e("DequantizeLinear", q, s, zp))
@gen(2)
def mixed(g, r):
    """Any of many operators in sequence."""
    x = finp(g, r, shape(r, 2, 4, m=6)); xs = [x]
    for _ in range(r.randint(3, 8)):
        s = g.sh(x); n = len(s); k = r.randint(0, 12)
        if k == 0 and n: x = g.e("Softmax", x, axis=-1)
        elif k == 1 and n:
            a = [r.randrange(n)]; kd = r.randint(0, 1); t = r.choice(["ReduceMean", "ReduceMax", "ReduceMin"]); x = g.e(t, x, g.i(*a), keepdims=kd) if g.opset >= 18 else g.e(t, x, axes=a, keepdims=kd)
        elif k == 2 and n: x = g.e("ReduceSum", x, g.i(r.randrange(n)), keepdims=r.randint(0, 1))
        elif k == 3 and n: a = r.randrange(n); x = g.e("Gather", x, g.inp(it(r, shape(r, 0, 2, m=4), I, -s[a], s[a] - 1)), axis=a)
        elif k == 4 and n: a = r.randrange(n); x = g.e("Slice", x, g.i(r.randrange(s[a])), g.i(2**31 - 1), g.i(a), g.i(r.choice([1, 2])))
        elif k == 5 and n: x = g.e("Transpose", x, perm=r.sample(range(n), n))
        elif k == 6: x = reshape_to(g, r, x, ops.factor(r, int(np.prod(s))) or [1])
        elif k == 7 and n: x = g.e("Concat", x, finp(g, r, s), axis=r.randrange(n))
        elif k == 8 and n >= 2: x = g.e("MatMul", x, finp(g, r, (s[-1], dim(r, 6))))
        elif k == 9 and n: x = g.e("Pad", x, g.i(*[r.randint(0, 1) for _ in range(2 * n)]), g.c(F(.5)))
        elif k == 10: x = g.e("Unsqueeze", x, g.i(r.randint(0, n)))
        elif k == 11 and n: x = g.e("CumSum", x, g.c(np.array(r.randrange(n), I)))
        else: x = binary(g, r, unary(g, r, x), finp(g, r, bshape(r, s), s))
        xs.append(x)
    g.out(x, *([r.choice(xs[1:-1])] if r.random() < .4 and len(xs) > 2 else []))
CG = {}
def cgen(fn): CG[fn.__name__] = (fn, 1, 13); return fn
def cval(r, s, dt, small=False):
    """Values constants are made of: neutral elements, extremes of floats, ordinary numbers."""
    p = r.random(); dt = np.dtype(dt)
    if p < .12: return np.zeros(s, dt)
    if p < .24: return np.ones(s, dt)
    if p < .3: return np.full(s, r.choice([2, 3, 5]), dt)
    a = fl(r, s, dt) if dt.kind == "f" else it(r, s, dt, 0 if dt.kind == "u" else -9, 9)
    return a
@cgen
def associate(g, r):
    """Sums, differences and products of values and constants of broadcast shapes, in any order."""
    dt = r.choice([F, F, np.float64, np.int32, I, np.uint8 if 0 else np.int32]); s = shape(r, 0, 4, m=5)
    K = lambda: g.inp(cval(r, bshape(r, s), dt), const=r.choice([True, True, None])); X = lambda: g.inp(val(r, bshape(r, s) if r.random() < .3 else s, dt), const=r.choice([None, False, False]), dyn=False)
    def t(n):
        if n == 0: return K() if r.random() < .55 else X()
        k = r.randrange(n); return g.e(r.choice(op), t(k), t(n - 1 - k))
    op = r.choice([["Add"], ["Mul"], ["Add", "Sub"], ["Add", "Mul"], ["Sub"], ["Mul", "Add", "Sub"]]); y = t(r.randint(2, 5))
    if np.abs(g.v[y]).max() > 2e4: raise Skip()
    if r.random() < .3: y = g.e("Neg", y)
    g.out(y)
@cgen
def quotients(g, r):
    """Div, Mod, Pow, BitShift and comparisons of constants and values."""
    dt = r.choice([F, np.float64, np.int32, I, np.uint64, np.uint32]); s = shape(r, 0, 3, m=5); k = r.randint(0, 5); sg = np.dtype(dt).kind != "u"; fp = np.dtype(dt).kind == "f"
    if not sg or k == 2 and not fp: g.folded = True  # unsigned operands are only supported by constant propagation
    nz = lambda q: np.where(np.abs(q) < (.1 if fp else 1), np.asarray(2, dt), q).astype(dt); a = cval(r, s, dt); b = cval(r, bshape(r, s), dt)
    if k == 0: y = g.e("Div", g.inp(a), g.inp(nz(b)), ref=None if fp else lambda a, b: [np.asarray(np.trunc(a.astype(np.longdouble) / b.astype(np.longdouble))).astype(dt)])
    elif k == 1:
        if fp:
            q = np.fmod(a, nz(b)); g.margin(q, np.abs(q) - np.abs(nz(b))); y = g.e("Mod", g.inp(a), g.inp(nz(b)), fmod=1)
        else: y = g.e("Mod", g.inp(a), g.inp(nz(b)))
    elif k == 2 and not sg: raise Skip()
    elif k == 2: y = g.e("Pow", g.inp(np.abs(a) + np.asarray(.5 if fp else 0, dt)), g.inp(np.abs(it(r, bshape(r, s), np.int32, 0, 3)).astype(dt if fp else r.choice([np.int32, I]))))
    elif k == 3: g.margin(*([a - b] if fp else [])); y = g.e(r.choice(["Less", "Greater", "LessOrEqual", "GreaterOrEqual", "Equal"]), g.inp(a), g.inp(b))
    elif k == 4 and not sg: raise Skip()
    elif k == 4: y = g.e(r.choice(["Max", "Min"]), *[g.inp(cval(r, bshape(r, s) if j else s, dt)) for j in range(r.randint(1, 4))])
    else: y = g.e("Where", g.inp(bo(r, bshape(r, s))), g.inp(a), g.inp(b))
    if fp and g.v[y].dtype.kind == "f" and np.abs(g.v[y]).max() > 1e4: raise Skip()
    g.out(y)
@cgen
def rearrange(g, r):
    """Constants moved through chains of data movement, so the folded data is read through strides and views."""
    dt = r.choice([F, np.float64, np.int32, I, np.uint8, np.int8, np.bool_, np.float16]); s = shape(r, 1, 4, m=6)
    a = bo(r, s) if dt is np.bool_ else (cval(r, s, dt) if r.random() < .2 else np.arange(int(np.prod(s))).reshape(s).astype(dt)); x = g.inp(a)
    if r.random() < .25: x = g.inp(np.full(s, a.ravel()[0], dt))
    for _ in range(r.randint(1, 5)):
        s = g.sh(x); n = len(s); k = r.randint(0, 9); m = r.randrange(n) if n else 0
        if k == 0: x = g.e("Transpose", x, perm=r.sample(range(n), n))
        elif k == 1: x = g.e("Reshape", x, g.i(*(ops.factor(r, int(np.prod(s))) or [1])))
        elif k == 2: x = g.e("Unsqueeze", x, g.i(r.randint(-n - 1, n)))
        elif k == 3 and 1 in s: x = g.e("Squeeze", x, g.i(r.choice([j for j in range(n) if s[j] == 1])))
        elif k == 4 and n: lo = r.randint(-s[m] - 1, s[m]); x = g.e("Slice", x, *([g.i(lo), g.i(r.choice([2**31 - 1, s[m], -1, s[m] - 1]))] if r.random() < .6 else [g.i(r.choice([-1, s[m]])), g.i(r.choice([-2**31, -s[m] - 1, 0]))]), g.i(r.choice([m, m - n])), g.i(r.choice([1, 2, 3]) if r.random() < .6 else -r.choice([1, 2])))
        elif k == 5 and n: x = g.e("Gather", x, g.inp(it(r, shape(r, 0, 2, m=3), I, -s[m], s[m] - 1)), axis=m)
        elif k == 6 and n: x = g.e("Concat", *[x if r.random() < .6 else g.inp(np.asarray(g.v[x])[::-1].copy()) for _ in range(r.randint(1, 3))], axis=r.choice([m, m - n]))
        elif k == 7: x = g.e("Expand", x, g.i(*[r.randint(1, 2)] * r.randint(0, 1), *[q if q > 1 else r.choice([1, 1, 3]) for q in s]))
        elif k == 8 and n and dt is not np.bool_ and dt is not np.float16: q = [r.randint(0, 2) for _ in range(2 * n)]; x = g.e("Pad", x, g.i(*q), g.c(np.array(3, dt)) if r.random() < .7 else None)
        elif k == 9 and n and s[m] > 1: q = r.randint(1, s[m] - 1); x = r.choice(g.e("Split", x, g.i(q, s[m] - q), axis=m, n=2))
        if g.v[x].size > 600: raise Skip()
    if r.random() < .3 and dt in (F, np.int32): x = g.e("Add", x, g.inp(cval(r, g.sh(x), dt)))
    if r.random() < .25 and dt not in (np.bool_,): x = g.e("Cast", x, to=r.choice([T.FLOAT, T.INT64, T.DOUBLE, T.BOOL]))
    g.out(x)
@cgen
def sums(g, r):
    """Reductions, matrix products, Gemm, CumSum-free folds of constants."""
    k = r.randint(0, 3)
    if k == 0:
        s = shape(r, 0, 4, m=5); n = len(s); dt = r.choice([F, np.float64, np.int32, I]); t = r.choice(["ReduceSum", "ReduceSum", "ReduceProd", "ReduceMin", "ReduceMax", "ReduceMean"]); x = g.inp((np.abs(val(r, s, dt)) % 3 + 1 if t == "ReduceProd" else val(r, s, dt)).astype(dt))
        if t == "ReduceProd" and np.prod(g.v[x], dtype=np.float64) > 1e4 or t == "ReduceMean" and dt not in (F, np.float64): raise Skip()
        a = r.choice([None, sorted(r.sample(range(n), r.randint(1, n))) if n else None]); a = a and [q - n if r.random() < .4 else q for q in a]; kd = r.choice([0, 1, None])
        y = g.e(t, x, *([g.i(*a)] if a else []), keepdims=kd) if t == "ReduceSum" or g.opset >= 18 else g.e(t, x, axes=a, keepdims=kd)
    elif k == 1:
        m, q, n = dim(r, 5), dim(r, 5), dim(r, 5); bs = shape(r, 0, 2, m=3); dt = r.choice([F, np.float64]); y = g.e("MatMul", g.inp(cval(r, (*bs, m, q), dt), dyn=[len(bs), len(bs) + 1]), g.inp(cval(r, (*bshape(r, bs), q, n) if len(bs) else (q, n), dt), dyn=False))
    elif k == 2:
        m, q, n = dim(r, 5), dim(r, 5), dim(r, 5); ta, tb = r.randint(0, 1), r.randint(0, 1); a, b = cval(r, (q, m) if ta else (m, q), F), cval(r, (n, q) if tb else (q, n), F)
        y = g.e("Gemm", g.inp(a), g.inp(b), *([g.inp(cval(r, bshape(r, (m, n)), F))] if r.random() < .7 else []), transA=ta, transB=tb, alpha=r.choice([None, .5, 2.]), beta=r.choice([None, .5, 0.]))
    else:
        m, q, n = dim(r, 4), dim(r, 4), dim(r, 4); ta, tb = r.choice([np.int8, np.uint8]), r.choice([np.int8, np.uint8]); mk = lambda s, t: it(r, s, t, 0 if t is np.uint8 else -50, 60)
        if r.random() < .3: za = zb = None
        else: za, zb = np.array(r.randint(0, 5), ta), np.array(r.randint(0, 5), tb)
        y = g.e("MatMulInteger", g.inp(mk((m, q), ta)), g.inp(mk((q, n), tb)), *([g.inp(za), g.inp(zb)] if za is not None else []))
    g.out(y)
@cgen
def made(g, r):
    """Range, ConstantOfShape, NonZero, ScatterND, Shape, Size, OneHot of constants and what consumes them."""
    k = r.randint(0, 4); s = shape(r, 1, 3, m=4)
    if k == 0:
        dt = r.choice([np.int32, I, F]); a, q = r.randint(-5, 5), r.choice([1, 2, 3, -1, -2]); y = g.e("Range", *[g.inp(np.array(v, dt)) for v in (a, a + q * r.randint(1, 6) - (0 if r.random() < .5 else np.sign(q) * (0 if abs(q) == 1 else 1)), q)])
    elif k == 1: y = g.e("ConstantOfShape", g.inp(np.array(s, I), dyn=False), value=r.choice([None, nh.from_array(np.array([7], np.int32)), nh.from_array(np.array([1.5], F)), nh.from_array(np.array([True]))]))
    elif k == 2: a = it(r, s[:1], np.int32, -1, 1); y = g.e("NonZero", g.inp(a))
    elif k == 3:
        a = val(r, s, F); ix = np.array(r.sample(range(s[0]), r.randint(1, s[0])), I)[:, None]  # depth 1: see the known cases
        y = g.e("ScatterND", g.inp(a), g.inp(ix), g.inp(val(r, (len(ix), *s[1:]), F)))
    else: y = g.e("Mul", g.e("Size", g.inp(val(r, s, F))), g.e("Shape", g.inp(val(r, shape(r, 1, 3), F))))
    if g.v[y].dtype.kind in "if" and r.random() < .5: y = g.e("Mul", y, g.inp(np.array(r.choice([2, 3]), g.v[y].dtype)))
    g.out(y)
def make(r, name=None, G_=None):
    G_ = G_ or GG
    for _ in range(400):
        nm = name or r.choices(list(G_), [G_[k][1] for k in G_])[0]
        g = G(r, r.choice([o for o in (13, 14, 15, 16, 17, 18, 19, 20, 21, 22) if o >= G_[nm][2]]))
        try:
            G_[nm][0](g, r)
            g.outs = list(dict.fromkeys(o for o in g.outs if o not in g.vals))
            if not g.outs: continue
            g.name = nm; finish(g); g.ref = [g.v[o] for o in g.outs]
            return g
        except Skip: continue
    raise RuntimeError("no case for " + str(name))
