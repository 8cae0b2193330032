from common import *
from p19 import LLVM
TECH = "random programs of the real constant-tensor operations monitored element by element through every access path against dense reference tensors under ASan/UBSan"
NOTE = "All 17 element types, shapes up to rank 6 with unit and empty dimensions, splat/dense/transposed/expanded/transformed operands, extreme bit patterns for data movement, exactly representable values for arithmetic, pools open and closed, single and multi-threaded contexts."
EA = f"{REPO}/src/Dialect/ONNX/ElementsAttr"
# the preinstalled LLVM libraries are not instrumented and do not follow the poisoning done by LLVM's inline allocator code
ENV = {"ASAN_OPTIONS": default_opts()["ASAN_OPTIONS"] + ":allow_user_poisoning=0"}
def attrs(mode):
    fl = [*MODES[mode], *INC, *LLVM_CXX]
    src = [f"{EA}/{f}" for f in sorted(os.listdir(EA)) if f.endswith(".cpp")]
    return objs([*src, f"{REPO}/src/Support/SmallFP.cpp", f"{REPO}/src/Support/TypeUtilities.cpp"], fl) + objs([f"{REPO}/src/Support/SmallFPConversion.c"], [*MODES[mode], *INC])
def build():
    return link2("p23", [hobj("p23.cpp", flags=LLVM_CXX), *attrs("asan")], ASAN, LLVM)
def run(c):
    c.harness(build(), [c.scale(40000, 200000)], shards=8, timeout=800, env=ENV)
    return dict(rule="random programs of constant operations; distinct by the program with its shapes and parameters", assumptions=["operands satisfy the documented preconditions of the builder (compatible shapes and types, indices in range)", "arithmetic is checked on values where the ONNX result is exactly representable; numeric casts in general belong to P25", "NaN payloads are not distinguished"])
