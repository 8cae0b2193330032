from common import *
from p03 import build
TECH = "differential monitor against a stable reference selection under ASan/UBSan with exact-size buffers"
NOTE = ("The first K entries of the real routine's result are compared with the first K of a stable reference sort (as a set when unsorted), with heavy ties, for 12 element types. "
        "Assumes the documented preconditions (last axis, unit inner stride, identity initial order).")
def run(c):
    n = c.scale(40000, 2000000)
    c.harness(build(), ["topk", n], shards=8, timeout=800)
    return dict(rule="random shape/strides/type/value profile/K/direction; distinct by type, K and resulting indices, lanes longer than 1",
                assumptions=["axis is the last one and its stride is 1, as the routine requires"])
