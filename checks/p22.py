from common import *
from p19 import LLVM
TECH = "chains of stride operations, traversals and buffer movements of the real code monitored against brute-force index arithmetic under ASan/UBSan"
NOTE = "Random shapes up to rank 7 with unit and empty dimensions, chains of transpositions, expansions, reshapes and splats, one to three operands, all element widths, huge shapes without enumeration; impossible reshapes are checked to be impossible."
def build():
    fl = [*ASAN, *INC, *LLVM_CXX]
    return link2("p22", [hobj("p22.cpp", flags=LLVM_CXX), *objs([f"{REPO}/src/Dialect/ONNX/ElementsAttr/Strides.cpp"], fl)], ASAN, LLVM)
def run(c):
    c.harness(build(), [c.scale(40000, 1000000)], shards=8, timeout=800)
    return dict(rule="random chains of view operations; distinct by the whole chain", assumptions=["dimensions of size 1 have stride 0, as every producer of strides in the code ensures", "reshapes of empty tensors start from row-major strides"])
