from common import *
from p19 import LLVM
TECH = "query histories on the real selection objects monitored against independent glob and POSIX regular expression matchers under ASan/UBSan"
NOTE = "Random lists mixing names, wildcards and regular expressions, ALL, NONE and empty lists, late initialisation, copies, and repeated queries in random order."
def build():
    fl = [*ASAN, *INC, *LLVM_CXX]
    return link2("p21", [hobj("p21.cpp", flags=LLVM_CXX), *objs([f"{REPO}/src/Compiler/OptionUtils.cpp"], fl)], ASAN, LLVM)
def run(c):
    c.harness(build(), [c.scale(6000, 300000)], shards=8, timeout=800)
    return dict(rule="random lists and query histories; distinct by list and name", assumptions=["names containing ALL or NONE are undecided, as the documentation gives those words their meaning wherever they occur", "an item with the documented signs of a regular expression is one, each item by itself", "malformed regular expressions are undecided"])
