"""Harness over compiled models. argv: suite=count ..."""
import os, random, sys, tempfile, warnings
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, "..", "..", "tools")]
warnings.simplefilter("ignore")
from core import *
from monpy import Mon
import ops
M = Mon()
def pieces(b):
    """What the model exercises, for counting and telling cases apart."""
    return "+".join(sorted({n.op_type for n in b.nodes}))
def static(b): return not any(isinstance(x, str) for v in b.dims.values() for x in v)
def declare(b): return b.declared if getattr(b, 'declared', None) else out_info(b, b.ref, static(b) and not getattr(b, "loose", False))
def compare(b, res, key):
    if not res.ok: raise Fail("model-error", f"errno {res.errno}")
    if len(res.outs) != len(b.ref): raise Fail("output-count", f"{len(res.outs)} instead of {len(b.ref)}")
    if res.changed: raise Fail("input-changed", f"mask {res.changed}")
    if res.differ: raise Fail("runs-differ", f"{res.differ} later runs return something else")
    for k, (g, f) in enumerate(zip(res.outs, b.ref)):
        if isinstance(f, (list, tuple)): continue
        w = same(g, f, b.tol)
        if w: raise Fail("value", f"output {k}: {w}")
def once(b, d, opts, san=None, reps=2, m=None, stem="m", threads=1, alt=None):
    m = m or model(b, declare(b))
    p = os.path.join(d, stem + ".onnx"); onnx.save(m, p)
    so = os.path.join(d, stem + ".so")
    link_so([compile_model(p, d, opts, san, stem=stem)], so)
    return run_so(so, [b.vals[x] for x in b.dims], d, san or "plain", reps=reps, threads=threads, alt=alt)
def case(f):
    """Runs f in a scratch directory; a Fail becomes a violation named after the case."""
    def g(r, i):
        d = tempfile.mkdtemp(prefix="omf", dir=M.tmp); st = {"b": None, "opts": []}
        try: f(r, i, d, st)
        except Skip: M.count("skipped")
        except Fail as e:
            b = st["b"]
            M.violate(f"{b.name if b else '?'}:{e.key}", f"{' '.join(st['opts'])} {e.detail} | {describe(model(b, declare(b)), b.vals.items()) if b else ''}")
        finally: shutil.rmtree(d, ignore_errors=True)
    return g
def seen(b, res=None, extra=()):
    M.count("op " + b.name); M.count("models")
    M.ev(1 + sum(int(np.size(x)) for x in b.ref if not isinstance(x, (list, tuple))))
    M.distinct((b.opset, [(n.op_type, str(sorted(map(str, n.attribute)))) for n in b.nodes], [(a.shape, a.dtype.str) for a in b.vals.values()], sorted(b.cinit), list(b.dims.values()), extra))
@case
def ops_(r, i, d, st):
    """Single operators: values, shapes and types against the oracle."""
    b = st["b"] = ops.make(r, names=st_names(i))
    o = st["opts"] = ["--O" + r.choice("0123")]
    compare(b, once(b, d, o), b.name)
    seen(b); M.sample(f"{b.name} {o} {[f'{a.dtype}{list(a.shape)}' for a in b.vals.values()]} -> {[np.shape(x) for x in b.ref]}")
ORDER = list(ops.GEN)
def st_names(i):
    """Every generator in turn first, then by weight."""
    return os.environ["OMF_ON"].split() if "OMF_ON" in os.environ else [ORDER[i]] if i < len(ORDER) else None
SUITES = {"ops": ops_}
def extend(**k): SUITES.update(k)
def main():
    for a in sys.argv[1:]:
        s, n = a.split("=")
        M.run(s, int(n), SUITES[s])
    M.finish()
