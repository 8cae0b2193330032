# P17: numpy arrays through the Python session, against what a scripted model received and produced.
import ctypes as C, gc, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from monpy import Mon
import numpy as np
N, LIB = int(sys.argv[1]), sys.argv[2]
import PyRuntime
from PyRuntime import OMExecutionSession
M = Mon(); lib = C.CDLL(LIB); proc = C.CDLL(None)
alloc_bytes = proc.__sanitizer_get_current_allocated_bytes; alloc_bytes.restype = C.c_size_t
lib.pm_entry.restype = C.c_char_p
TYPES = {1: np.float32, 2: np.uint8, 3: np.int8, 4: np.uint16, 5: np.int16, 6: np.int32, 7: np.int64, 8: object, 9: np.bool_, 10: np.float16, 11: np.float64, 12: np.uint32, 13: np.uint64, 14: np.complex64, 15: np.complex128}
WORDS = ["", "a", "hello", "zażółć", "日本", "x" * 70, " sp ace ", "\t\n", "0"]
def values(r, t, n):
    if t == 8: return np.array([r.choice(WORDS) + str(r.randrange(5)) * r.randrange(2) for _ in range(n)] + [None], dtype=object)[:n]
    if t == 9: return np.frombuffer(bytes(r.getrandbits(1) for _ in range(n)), dtype=np.bool_).copy()
    d = np.dtype(TYPES[t]); return np.frombuffer(r.randbytes(n * d.itemsize), dtype=d).copy()
def shape_of(r, big=False):
    if big: return (r.randrange(20, 40), r.randrange(60, 90))
    return tuple(0 if r.random() < 0.04 else 1 if r.random() < 0.2 else r.randrange(1, 6) for _ in range(r.randrange(0, 6)))
# an array of the wanted logical content in some memory layout
def layout(r, a):
    k = r.randrange(11); n = a.ndim
    if k == 0 or a.size == 0 or n == 0:
        b = a.copy()
        if r.random() < 0.3: b.flags.writeable = False
        return b, "C" if b.flags.writeable else "readonly"
    if k == 1: return np.asfortranarray(a), "F"
    if k == 2:
        p = list(range(n)); r.shuffle(p); inv = np.argsort(p); return a.transpose(p).copy().transpose(inv), "transposed"
    if k == 3:
        st = [r.randrange(1, 4) for _ in range(n)]; big = np.empty([max(1, s * x) for s, x in zip(a.shape, st)], dtype=a.dtype); big[...] = "pad" if a.dtype == object else 1; v = big[tuple(slice(0, s * x, x) for s, x in zip(a.shape, st))]; v[...] = a; return v, "sliced"
    if k == 4:
        ix = tuple(slice(None, None, -1) if r.random() < 0.6 else slice(None) for _ in range(n)); return a[ix].copy()[ix], "negative"
    if k == 5:
        ax = r.randrange(n); b = np.broadcast_to(a.take([0], axis=ax), a.shape); return b, "broadcast"
    if k == 6:
        pad = np.empty([s + r.randrange(0, 3) for s in a.shape], dtype=a.dtype); pad[...] = "pad" if a.dtype == object else 0; off = [r.randrange(0, p - s + 1) for p, s in zip(pad.shape, a.shape)]; v = pad[tuple(slice(o, o + s) for o, s in zip(off, a.shape))]; v[...] = a; return v, "window"
    if k == 7: b = np.asfortranarray(a); b.flags.writeable = False; return b, "readonly-F"
    if k == 8: b = a.copy(); b.flags.writeable = False; return b, "readonly"
    if k == 9 and a.dtype != object:
        raw = np.empty(a.nbytes + 64, dtype=np.uint8); o = a.dtype.itemsize * r.randrange(1, 4); v = raw[o:o + a.nbytes].view(a.dtype).reshape(a.shape); v[...] = a; return v, "offset"
    if k == 10: return a[np.newaxis][0], "view"
    return a.copy(), "C"
def row_major(a): return b"".join(str(x).encode() + b"\0" for x in a.flat) if a.dtype == object else np.ascontiguousarray(a).tobytes()
def received(i):
    q = [C.c_int64() for _ in range(3)]; sh, st = (C.c_int64 * 8)(), (C.c_int64 * 8)(); d = C.c_void_p(); n = C.c_int64()
    lib.pm_in(i, *[C.byref(x) for x in q], sh, st, C.byref(d), C.byref(n)); t, rk = q[0].value, q[1].value
    return t, tuple(sh[:rk]), tuple(st[:rk]), C.string_at(d.value, n.value)
def i64(s): return (C.c_int64 * max(1, len(s)))(*s)
FRESH, STATIC, INPUT, SHARED, NULLT, STR, STRSTATIC = 1, 2, 3, 4, 5, 7, 8
def out(kind, t, shape, data=b"", src=0, off=0): lib.pm_out(kind, t, len(shape), i64(shape), src, C.c_int64(off), data, C.c_int64(len(data)))
# random outputs; returns what each must be: (dtype, shape, row-major bytes)
def script(r, ins, n=None, big=False):
    exp = []
    for i in range(r.randrange(1, 5) if n is None else n):
        k = r.random(); t = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]); sh = shape_of(r, big); cnt = int(np.prod(sh, dtype=np.int64))
        if exp and k < 0.25:   # another view of an allocation made before
            prev = [j for j, e in enumerate(exp) if e[3] == FRESH and e[0] != 8 and len(e[2]) > 0]
            if prev:
                j = r.choice(prev); d = np.dtype(TYPES[exp[j][0]]); total = len(exp[j][2]) // d.itemsize; o = r.choice([0, r.randrange(0, total)]); c = r.randrange(1, total - o + 1)
                out(SHARED, exp[j][0], (c,), b"", j, o * d.itemsize); exp.append((exp[j][0], (c,), exp[j][2][o * d.itemsize:(o + c) * d.itemsize], SHARED)); continue
        if ins and k < 0.4:
            j = r.randrange(len(ins))
            if ins[j].dtype != object: out(INPUT, 1, (), b"", j); exp.append((next(a for a, b in TYPES.items() if b == ins[j].dtype.type), ins[j].shape, row_major(ins[j]), INPUT)); continue
        v = values(r, t, cnt).reshape(sh); b = row_major(v)
        if t == 8: kind = STR if r.random() < 0.7 or any(e[3] == STRSTATIC for e in exp) else STRSTATIC; out(kind, 8, sh, b)
        else: kind = FRESH if k < 0.85 or len(b) > 8000 else STATIC; out(kind, t, sh, b, 0, r.choice([0, 0, 8, 16, 64]) if kind == FRESH else 0)
        exp.append((t, sh, b, kind))
    return exp
def same(o, e): return isinstance(o, np.ndarray) and o.dtype == np.dtype(TYPES[e[0]]) and o.shape == e[1] and row_major(o) == e[2]
def check_outputs(outs, exp, what, when=""):
    if len(outs) != len(exp): M.violate("output-count" + when, f"{what}: {len(outs)} for {len(exp)}"); return
    for i, (o, e) in enumerate(zip(outs, exp)):
        M.count("outputs_checked")
        if not same(o, e): M.violate("output" + when + ":" + np.dtype(TYPES[e[0]]).name, f"{what}: output {i} is {getattr(o, 'dtype', type(o))}{getattr(o, 'shape', '')} {str(o)[:80]!r}, model made type {e[0]} {e[1]} {e[2][:40]!r} kind {e[3]}")
class Live:   # outputs that stay in use over later calls
    items = []
def audit(r, when):
    for outs, exp, what in Live.items: check_outputs(outs, exp, what, when)
def one(r, i):
    s = session(r); n = r.randrange(0, 5); ins, kinds, ts, big = [], [], [], r.random() < 0.1
    for _ in range(n):
        t = r.choice(list(TYPES)); sh = shape_of(r, big); a = values(r, t, int(np.prod(sh, dtype=np.int64))).reshape(sh); a, k = layout(r, a); ins.append(a); kinds.append(k); ts.append(t)
    before = [(row_major(a), a.shape, a.strides) for a in ins]
    lib.pm_reset(); exp = script(r, ins); sig = r.random() < 0.2; copy = r.random() < 0.25; name = r.choice(["run_main_graph", "run_second"]); s.set_entry_point(name)
    what = f"{[(TYPES[t].__name__, a.shape, k) for t, a, k in zip(ts, ins, kinds)]} copy={copy} handler={sig}"; M.ev(); M.distinct((what, [e[:2] + (e[3],) for e in exp])); M.sample(what)
    outs = s.run_debug(ins, with_signal_handler=sig, force_output_data_copy=copy) if sig or copy or r.random() < 0.1 else s.run(ins)
    if lib.pm_runs() != 1 or lib.pm_entry() != name.encode(): M.violate("calls", f"{lib.pm_runs()} calls, entry {lib.pm_entry()} for {name}")
    if lib.pm_nin() != n: M.violate("input-count", f"{lib.pm_nin()} inputs for {n}")
    else:
        for k in range(n):
            t, sh, st, d = received(k); M.count("inputs_checked"); M.count("layout:" + kinds[k])
            if t != ts[k] or sh != ins[k].shape: M.violate("input-type-shape", f"{what}: input {k} arrives as type {t} shape {sh}")
            elif d != before[k][0]: M.violate("input-values:" + kinds[k], f"{what}: input {k} arrives with other values (strides {st})")
    for k in range(n):
        if (row_major(ins[k]), ins[k].shape, ins[k].strides) != before[k]: M.violate("input-changed", f"{what}: input {k} of the caller changed")
    check_outputs(outs, exp, what)
    # outputs do not depend on model constants, inputs or one another
    lib.pm_scribble()
    for a in ins:
        if a.flags.writeable and a.dtype != object and a.size: a[...] = np.ones((), a.dtype)
    check_outputs(outs, exp, what, "-after-reuse")
    for o, e in zip(outs, exp):
        if e[3] in (FRESH, STATIC, INPUT, STR) and not o.flags.writeable: M.violate("output-readonly", what)
    keep = [k for k in range(len(outs)) if r.random() < 0.6]; outs2 = [outs[k] for k in keep]; exp2 = [exp[k] for k in keep]; del outs, ins
    Live.items.append((outs2, exp2, what))
    if r.random() < 0.3: gc.collect()
    if r.random() < 0.3: Session.cur = None; s = None; gc.collect(); audit(r, "-after-session"); M.count("sessions_closed")
    elif r.random() < 0.3: audit(r, "-later")
    while len(Live.items) > 12: Live.items.pop(r.randrange(len(Live.items)))
class Session: cur = None
def session(r):
    if Session.cur is None: Session.cur = OMExecutionSession(LIB, "NONE", r.random() < 0.7); M.count("sessions_opened")
    return Session.cur
ERR = Exception
def expect_error(what, f, sess=None):
    M.ev(); M.count("errors_provoked"); M.distinct(what)
    try: x = f()
    except ERR as e:
        if not str(e).strip(): M.violate("error-message", f"{what}: empty message")
        return str(e)
    M.violate("no-error:" + what.split(" (")[0], f"{what} returned {str(x)[:100]}")
def good(s, what):
    lib.pm_reset(); a = np.arange(6, dtype=np.int32).reshape(2, 3); out(FRESH, 6, (2, 3), (a * 2).tobytes())
    try: o = s.run([a])
    except Exception as e: M.violate("unusable-after:" + what.split(" (")[0], f"{what}: {e}"); return
    if len(o) != 1 or not np.array_equal(o[0], a * 2): M.violate("unusable-after:" + what.split(" (")[0], what)
def wrong(r, i):
    s = OMExecutionSession(LIB, "NONE"); x = np.arange(4, dtype=np.float32); k = r.randrange(13)
    def again(what, f): expect_error(what, f); good(s, what)
    lib.pm_reset()
    if k == 0:
        b = r.choice([np.array(["ab", "c"]), x.astype(">f4"), np.array([1], dtype="M8[s]"), np.zeros(2, dtype=[("a", "i4")]), np.zeros(2, dtype=np.longdouble), np.array([b"x"]), np.zeros(1, "V3")]); n0 = lib.pm_runs(); again(f"unsupported type (dtype {b.dtype})", lambda: s.run([x, b, x])); 
    elif k == 1: again("non-string object", lambda: s.run([np.array(["a", r.choice([None, 3, 2.5, []])], dtype=object)]))
    elif k == 2: again("list instead of array", lambda: s.run([r.choice([[1.0, 2.0], 3, None, "abc"])]))
    elif k == 3: bad = r.choice(["/nonexistent/m.so", LIB + "x", "/etc/passwd", M.tmp]); expect_error(f"missing library ({bad!r})", lambda: OMExecutionSession(bad, "NONE")); good(s, "missing library")
    elif k == 4: expect_error("wrong tag", lambda: OMExecutionSession(LIB, r.choice(["", "other", "none2"]))); good(s, "wrong tag")
    elif k == 5: expect_error("unknown entry point", lambda: s.set_entry_point(r.choice(["nope", "", "run_main_grap", "run_main_graph "]))); s.set_entry_point("run_main_graph"); good(s, "unknown entry point")
    elif k == 6: t = OMExecutionSession(LIB, "NONE", False); expect_error("no entry point", lambda: t.run([x])); t.set_entry_point("run_second"); good(t, "no entry point")
    elif k == 7: e = r.choice([1, 2, 12, 22, 5]); lib.pm_fail(e, 0); m = expect_error(f"model failure (errno {e})", lambda: s.run([x, np.array(["s"], dtype=object)])); good(s, "model failure"); m is None or os.strerror(e) in m or M.violate("model-error-text", f"errno {e} reported as {m}")
    elif k == 8: out(FRESH, 1, (2,), b"12345678"); out(NULLT, 1, ()); again("null output", lambda: s.run([x]))
    elif k == 9: out(FRESH, 1, (2,), b"12345678"); t = r.choice([17, 18, 19, 20, 21]); out(FRESH, t, (2,), b"12"); again(f"unsupported output (type {t})", lambda: s.run([x]))
    elif k == 10: sg = r.choice([4, 6, 8, 11]); lib.pm_fail(0, sg); m = expect_error(f"signal (number {sg})", lambda: s.run_debug([x], with_signal_handler=True)); good(s, "signal")
    elif k == 11: again("counts differ", lambda: s._runImplementation([x], [], [np.array([4])], False, False))
    elif k == 12:
        q = r.choice(["nosuchlib", 3, None]); expect_error("no path", lambda: OMExecutionSession(q)); good(s, "no path")
    # queries
    if (s.entry_points(), s.input_signature() if k else s.input_signature()) [0] != ["run_main_graph", "run_second"]: M.violate("entry-points", str(s.entry_points()))
    s.set_entry_point("run_second")
    if (s.input_signature(), s.output_signature(), s.compilation_info(), s.get_shared_lib_path()) != ("[ second in ]", "[ second out ]", "{ scripted }", LIB): M.violate("queries", f"{s.input_signature()} {s.output_signature()} {s.compilation_info()} {s.get_shared_lib_path()}")
def fill(r, i):
    sg, want = [], []
    names = {1: "f32", 2: "ui8", 3: "i8", 4: "ui16", 5: "i16", 6: "i32", 7: "i64", 8: "string", 9: "i1", 10: "f16", 11: "f64", 12: "ui32", 13: "ui64"}
    for _ in range(r.randrange(1, 4)): t = r.choice(list(names)); sh = shape_of(r); sg.append('{ "type" : "%s" , "dims" : %s , "name" : "x" }' % (names[t], list(sh))); want.append((t, sh))
    lib.pm_reset(); lib.pm_signature(("[ " + " , ".join(sg) + " ]").encode()); s = OMExecutionSession(LIB, "NONE"); seed = r.randrange(1 << 30); M.ev(); M.distinct(tuple(want)); M.count("fills")
    a = s.fill_input_debug("", "-1:min0 max9", "", "", seed, False); b = s.fill_input_debug("", "-1:min0 max9", "", "", seed, False)
    if [(x.dtype, x.shape) for x in a] != [(np.dtype(TYPES[t]), sh) for t, sh in want]: M.violate("fill-shape", f"{want}: {[(x.dtype, x.shape) for x in a]}"); return
    if any(row_major(x) != row_major(y) for x, y in zip(a, b)): M.violate("fill-seed", f"{want}")
    for x, (t, sh) in zip(a, want):
        v = x.astype(np.float64) if t != 8 else np.array([int(q) for q in x.flat], dtype=np.float64)
        if x.size and not (v.min() >= 0 and v.max() <= 9): M.violate("fill-range", f"{want}: {x}")
    out(FRESH, 6, (1,), b"\1\0\0\0"); s.run(a)
    for k in range(len(a)):
        t, sh, st, d = received(k)
        if t != want[k][0] or sh != want[k][1] or d != row_major(a[k]): M.violate("fill-run", f"{want}")
    lib.pm_signature(b"[ broken "); expect_error("broken signature", lambda: s.fill_input_debug()); lib.pm_signature(b"[]")
# repeated calls do not accumulate memory
def leak(r, i):
    s = OMExecutionSession(LIB, "NONE"); k = i % 14; x = np.zeros((40, 50), dtype=np.float32); ro = x.copy(); ro.flags.writeable = False; st = np.array(["text" * 100] * 30, dtype=object); sro = st.copy(); sro.flags.writeable = False; F = np.asfortranarray(x); data = bytes(8000)
    sig = b'[ { "type" : "f32" , "dims" : [40, 50] } , { "type" : "string" , "dims" : [30] } ]'
    def f(j):
        lib.pm_reset(); copy = k == 5
        if k == 6: lib.pm_fail(22, 0)
        if k == 7: out(FRESH, 1, (40, 50), data); out(NULLT, 1, ())
        if k == 8: out(FRESH, 1, (40, 50), data); out(FRESH, 17, (8000,), data)
        if k in (0, 1, 2, 3, 5, 9): out(FRESH, 1, (40, 50), data, 0, 16); out(SHARED, 1, (10,), b"", 0, 40); out(STATIC, 1, (10, 10), data[:400]); out(INPUT, 1, (), b"", 0)
        if k == 4: out(STR, 8, (4,), b"abc\0" * 4); out(STR, 8, (2, 100), b"xyz\0" * 200)
        ins = {0: [x], 1: [ro, x], 2: [F, ro], 3: [x, st, sro], 4: [st], 5: [ro, st], 9: [x.T, x[::2]]}.get(k, [ro, st, sro])
        if k == 10: ins = [ro, st, np.zeros(3, dtype=np.longdouble)]
        if k == 11: ins = [ro, np.array(["a", 3], dtype=object)]
        try:
            if k == 12: lib.pm_signature(sig); s.fill_input_debug(); lib.pm_signature(b"[]"); return
            if k == 13:
                t = OMExecutionSession(LIB, "NONE"); out(FRESH, 1, (40, 50), data); t.run([ro, st]); del t; return
            o = s.run_debug(ins, force_output_data_copy=copy) if copy else s.run(ins)
            if k in (6, 7, 8, 10, 11): M.violate("no-error", f"leak case {k}")
        except (RuntimeError, TypeError, ValueError):
            if k not in (6, 7, 8, 10, 11): raise
    for j in range(25): f(j)
    gc.collect(); a = alloc_bytes(); n = 60
    for j in range(n): f(j)
    gc.collect(); g = alloc_bytes() - a; M.ev(); M.count("leak_loops"); M.count("runs_in_leak_loops", n); M.distinct(("leak", k))
    if g > n * (400 if k == 10 else 40):   # numpy loses about 90 bytes per text of an extended dtype
        M.violate(f"leak:{k}", f"{g / n:.0f} bytes per call stay allocated")
M.run("arrays", N, one); Live.items.clear(); Session.cur = None
M.run("wrong", N // 2, wrong); M.run("fill", N // 8, fill); M.run("leak", 28, leak)
M.finish()
