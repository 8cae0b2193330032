from common import *
TECH = "stream monitor: replay comparison over call histories, range and distribution tests, injected extreme draws, under ASan/UBSan"
NOTE = ("Histories of normal/uniform requests (f32, f64) are replayed in another order with foreign rand() calls in between and must be bit-identical; 20000-element streams are tested "
        "for mean, scale, Kolmogorov distance and lag-1 correlation; rand() is wrapped to return its extremes. Sequential histories only: the generators share the C library's state.")
def build():
    return link2("p08", [hobj("p08.cpp"), *crt()], [*ASAN, "-Wl,--wrap=rand"], ["-lm"])
def run(c):
    c.harness(build(), [c.scale(4000, 300000)], shards=8, timeout=800)
    return dict(rule="random histories of requests; distinct by generator, size, parameters and seed", assumptions=["calls are sequential", "distinct integral seeds other than 0 (the C library maps 0 to 1)"])
