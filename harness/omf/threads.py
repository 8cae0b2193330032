"""Compiled models called from several threads at once, with two sets of inputs."""
from main import *
import suites, graphs, control
SHAPERS = {"Resize", "Upsample", "Range", "Tile", "Expand", "ConstantOfShape", "NonZero", "Compress", "Unique", "NonMaxSuppression", "If", "Loop", "Scan"}
@case
def threads(r, i, d, st):
    k = r.random()
    b = st["b"] = suites.anyb(r, 10**6, .7) if k < .85 else ops.make(r); o = st["opts"] = ["--O" + r.choice("0123")]
    if any(isinstance(x, (list, tuple)) for x in b.ref): raise Skip
    san = "tsan" if r.random() < .35 else None; n = r.choice([2, 4, 8, 8]); how = r.random()
    if how < .3: o += ["--store-constants-to-file", "--constants-to-file-single-threshold=0", "--constants-to-file-total-threshold=0"]
    elif how < .4: o += ["--disable-krnl-op-fusion"]
    elif how < .5: o += ["--verifyInputTensors"]
    alt = None if any(x.op_type in SHAPERS for x in b.nodes) else "".join("1" if b.vals[x].dtype.kind == "f" and b.vals[x].size > 1 else "0" for x in b.dims)
    res = once(b, d, o, san, reps=1 if san else r.choice([1, 5, 40]), threads=n, alt=alt); compare(b, res, b.name)
    if res.bad: raise Fail("alone-differs", f"{res.bad}")
    M.count("threads", n); M.count("under the thread sanitizer" if san else "plain")
    if alt and "1" in alt: M.count("two sets of inputs")
    if how < .3: M.count("constants loaded by the first of several threads")
    seen(b, extra=(san, n, how < .3)); M.sample(f"{b.name} {o} {san} {n} threads, inputs {alt}")
SUITES = {"threads": threads}
