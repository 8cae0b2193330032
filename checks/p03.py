from common import *
TECH = "differential monitor against a stable reference sort under ASan/UBSan with exact-size buffers"
NOTE = ("Order tensors produced by the real routine are compared lane by lane with a stable reference for 12 element types, ranks 1-6, padded layouts, ties and extremes; "
        "NaN lanes are only checked to be permutations. Assumes the documented preconditions (last axis, unit inner stride).")
def build():
    return link("sort", [hobj("sort.cpp")] + crt(), ASAN)
def run(c):
    n = c.scale(30000, 1500000)
    c.harness(build(), ["sort", n], shards=8, timeout=800)
    return dict(rule="random shape/strides/type/value profile/direction; distinct by type, direction and resulting permutation, lanes longer than 1",
                assumptions=["axis is the last one and its stride is 1, as the routine requires"])
