"""Fixed models of the listed known findings: each is expected to fail, under its own key."""
from main import *
F, I = np.float32, np.int64
ar = lambda *s: np.arange(int(np.prod(s)), dtype=F).reshape(s)
K = {}
def known(prop):
    def f(fn): K.setdefault(prop, {})[fn.__name__] = fn; return fn
    return f
@known("known30")
def nonzero_rank2(b): b.out(b.op("NonZero", b.inp(np.array([[0, 1], [1, 0]], F))))
@known("known30")
def scatternd_partial_index(b): b.out(b.op("ScatterND", b.inp(ar(4, 3)), b.inp(np.array([[[2]], [[0]]], I)), b.inp(-ar(2, 1, 3) - 1)))
@known("known30")
def scatternd_negative_index(b): b.out(b.op("ScatterND", b.inp(ar(64)), b.inp(np.array([[-60], [3]], I)), b.inp(np.array([-1, -2], F))))
@known("known30")
def gathernd_negative_index(b): b.out(b.op("GatherND", b.inp(ar(64)), b.inp(np.array([[-60], [3]], I))))
@known("known30")
def maxpool_dilated(b):
    b.check = ops.pool_ref("MaxPool", dict(kernel_shape=[3, 2], dilations=[2, 3]), 2)
    b.out(b.op("MaxPool", b.inp(ar(1, 1, 9, 9)), kernel_shape=[3, 2], dilations=[2, 3]))
@known("known30")
def averagepool_ceil_include_pad(b):
    b.check = lambda b: [np.array([[[.5, 2.5, 4.]]], F)]
    b.out(b.op("AveragePool", b.inp(ar(1, 1, 5)), kernel_shape=[2], strides=[2], ceil_mode=1, count_include_pad=1))
@known("known30")
def pool_window_beyond_input(b):
    b.check = lambda b: [np.array([[[0.]]], F)]
    b.loose = True; b.out(b.op("MaxPool", b.inp(ar(1, 1, 2)), kernel_shape=[1], strides=[3], ceil_mode=1))
@known("known30")
def split_uneven(b):
    b.check = lambda b: [b.vals["x1"][i:i + 3] for i in (0, 3, 6, 9)]
    x = b.inp(ar(10)); b.fix = {x: ["n"]}; b.opset = 18; b.out(*b.op("Split", x, n=4, axis=0, num_outputs=4))
@known("known30")
def split_uneven_constant(b):
    b.check = lambda b: [b.vals["x1"][i:i + 3] for i in (0, 3, 6, 9)]
    b.opset = 18; b.out(*b.op("Split", b.inp(ar(10), const=True), n=4, axis=0, num_outputs=4))
@known("known30")
def spacetodepth_channels(b):
    x = b.inp(ar(1, 2, 2, 2)); b.check = lambda b: [b.vals[x].reshape(1, 2, 1, 2, 1, 2).transpose(0, 3, 5, 1, 2, 4).reshape(1, 8, 1, 1)]
    b.out(b.op("SpaceToDepth", x, blocksize=2))
@known("known30")
def matmul_vectors(b): b.out(b.op("MatMul", b.inp(ar(8)), b.inp(ar(8))))
@known("known30")
def matmul_dynamic_batch(b):
    x, y = b.inp(ar(1, 2, 3)), b.inp(ar(2, 3, 2)); b.fix = {x: ["n", 2, 3], y: ["m", 3, 2]}
    b.out(b.op("MatMul", x, y))
@known("known30")
def fused_broadcast(b):
    x, y = b.inp(ar(4, 5)), b.inp(ar(1) + 7); b.fix = {y: ["n"]}
    b.out(b.op("Add", b.op("Sqrt", x), y))
@known("known30")
def cast_to_unsigned(b): b.out(b.op("Cast", b.inp(np.array([1, 2], np.int32)), to=T.UINT8))
@known("known31")
def qlinearmatmul_saturation(b):
    c = lambda v, t: b.inp(np.array(v, t), const=True); dq = lambda a: b.op("DequantizeLinear", b.inp(np.array(a, np.int8)), c(.1, F), c(0, np.int8))
    b.out(b.op("QuantizeLinear", b.op("MatMul", dq([[100, -100]]), dq([[100, -100], [100, 100]])), c(.5, F), c(0, np.int8)))
@known("known32")
def cast_chain_constant(b): b.out(b.op("Cast", b.op("Cast", b.inp(np.array([139, -139, 3], np.int32), const=True), to=T.INT8), to=T.INT16))
@known("known33")
def buffer_reuse_overwrites_input(b): b.opts = ["--O0", "--enable-krnl-buffer-reuse"]; b.out(b.op("Neg", b.inp(ar(4) + 1)))
@known("known30")
def empty_broadcast(b): x = b.inp(np.zeros((0, 3), F)); y = b.inp(ar(1, 3)); b.fix = {x: ["n", 3], y: ["m", 3]}; b.out(b.op("Add", x, y))
@known("known36")
def derived_trip_count_not_positive(b):
    import control
    x, lo, ub = b.inp(ar(2)), b.inp(np.array(5, I)), b.inp(np.array(3, I)); s = control.Sub(b, b.r); st = b.inp(np.array(1, I), const=True)
    def f(): n = b.op("Add", "ct", st); return [(b.op("Less", n, "ub"), 9, []), (n, 7, []), (b.op("Add", "sx", "sx"), 1, [2]), (b.op("Identity", "ub"), 7, [])]
    g = s.graph([("it", 7, []), ("ci", 9, []), ("ct", 7, []), ("sx", 1, [2]), ("ub", 7, [])], f)
    o = b.op("Loop", s.const(np.array(100, I)), s.const(np.array(True)), lo, x, ub, n=3, body=g); b.out(o[1]); b.ref = control.evaluate(b.nodes, b.vals, b.opset, b.outs)
@known("known36")
def loop_in_a_branch(b):
    import control
    x, c, m = b.inp(ar(2)), b.inp(np.array(True)), b.inp(np.array(3, I)); s = control.Sub(b, b.r)
    body = s.graph([("it", 7, []), ("ci", 9, []), ("sx", 1, [2])], lambda: [(b.op("Identity", "ci"), 9, []), (b.op("Add", "sx", x), 1, [2])])
    th = s.graph([], lambda: [(b.op("Loop", b.op("Add", m, s.const(np.array(0, I))), s.const(np.array(True)), x, n=1, body=body), 1, [2])]); el = s.graph([], lambda: [(b.op("Neg", x), 1, [2])])
    b.out(b.op("If", c, then_branch=th, else_branch=el)); b.ref = control.evaluate(b.nodes, b.vals, b.opset, b.outs)
def suite(prop):
    names = list(K[prop])
    def f(r, i):
        if i >= len(names): return
        n = names[i]; b = B(random.Random(1), 19); b.name = n; b.fix = {}
        K[prop][n](b)
        b.cinit = set(b.const); b.dims = {x: b.fix.get(x, list(a.shape)) for x, a in b.vals.items() if x not in b.const}
        if not getattr(b, "ref", None): b.ref = reference(b)
        d = tempfile.mkdtemp(prefix="omf", dir=M.tmp)
        try: compare(b, once(b, d, getattr(b, "opts", ["--O0"]), reps=1), n)
        except Fail as e: M.violate(f"known:{n}:{e.key.split(':')[0]}", f"{e.key} {e.detail} | {describe(model(b, declare(b)), b.vals.items())}")
        finally: shutil.rmtree(d, ignore_errors=True)
        M.ev(1); M.count("known cases")
    return f
SUITES = {p: suite(p) for p in K}
