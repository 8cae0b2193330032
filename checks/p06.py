from common import *
TECH = "differential monitor against a double-precision separable reference under ASan/UBSan/LSan with exact-size buffers"
NOTE = ("Linear and cubic modes with half_pixel coordinates (the only ones the lowering sends to the runtime), ranks 1 to 5, by scales and by sizes, including scales whose "
        "coordinates fall next to an integer. Values are compared within 2e-4 of the largest input magnitude per axis, since coordinates are floats.")
def build():
    return link2("p06", [hobj("p06.cpp"), *crt()], ASAN, ["-lm"])
def run(c):
    c.harness(build(), [c.scale(12000, 1500000)], shards=8, timeout=800)
    return dict(rule="random rank/shape/scales/sizes/mode/values; distinct by mode, shape and exact scales, counted when some dimension changes",
                assumptions=["float input, dense layout, default attributes (as the lowering enforces)"])
