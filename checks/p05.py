from common import *
TECH = "differential monitor against an independent model of ONNX Unique under ASan/UBSan/LSan with exact-size output buffers"
NOTE = ("Random shapes to rank 6, strided inputs, 11 element types, duplicated slices, signed zeros, every combination of requested, absent (NULL) and "
        "zero-element outputs, plus inputs larger than the stack. NaN is excluded (ONNX leaves its equality open); the flattened form assumes a dense input.")
def build():
    return link2("p05", [hobj("p05.cpp"), *crt()], ASAN, ["-lm"])
def run(c):
    n = c.scale(48000, 3000000)
    c.harness(build(), [n], shards=8, timeout=800)
    return dict(rule="random shape/strides/type/axis/sorted/outputs; distinct by type, axis, sorted and inverse indices, counted when there are both repeated and several distinct slices",
                assumptions=["no NaN in the input", "flattened inputs are dense"])
