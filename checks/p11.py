from common import *
from p10 import x as build
TECH = "differential monitor against a table-driven model of each 8-bit format (ASan/UBSan)"
NOTE = ("All 256 patterns of each format through every conversion and all 65536 comparisons; every rounding midpoint with both float neighbours; all 2^20 leading float bits with edge and random low bits. "
        "Overflow must give infinity where the format has one and NaN otherwise; fnuz formats have one zero.")
def run(c):
    c.harness(build(), ["8", c.scale(6, 64)], shards=8, timeout=800)
    return dict(rule="patterns, midpoints and float blocks sharing their 12 leading bits", assumptions=[])
