from common import *
from p19 import LLVM
from p23 import attrs, ENV
TECH = "runtime monitor of buffer and transformation deleters against the reachability model of random module histories, passes and concurrent creation, under ASan/LSan/UBSan and TSan"
NOTE = "Real DisposablePool, DisposableGarbageCollector and scrub passes (ONNX and ZHigh) on modules with nested regions; buffers and transformations carry tokens whose destruction is recorded; constants shared by several operations and by derived views; multi-threaded pass managers and raw threads."
F = [f"-I{H}/gen24", *LLVM_CXX]
# no accesses inside the preinstalled, uninstrumented LLVM libraries; their locks still order
TENV = {"TSAN_OPTIONS": default_opts()["TSAN_OPTIONS"] + ":ignore_noninstrumented_modules=1"}
def exe(mode):
    fl = [*MODES[mode], f"-I{H}/gen24", f"-I{H}", f"-I{VERIF}/tools", *INC, *LLVM_CXX]
    own = objs([f"{REPO}/src/Compiler/DisposableGarbageCollector.cpp", f"{REPO}/src/Dialect/ONNX/Transforms/ScrubDisposablePass.cpp", f"{REPO}/src/Accelerators/NNPA/Compiler/ZHighDisposableGarbageCollector.cpp", f"{REPO}/src/Accelerators/NNPA/Transform/ZHigh/ZHighScrubDisposablePass.cpp", f"{REPO}/src/Dialect/ONNX/OnnxElementsAttrBuilder.cpp"], fl)
    return link2(f"p24{mode}", [obj(f"{H}/p24.cpp", fl), *own, *attrs(mode)], MODES[mode], LLVM)
def build():
    return exe("asan"), exe("tsan")
def run(c):
    a, t = build()
    c.harness(a, [c.scale(6000, 100000)], shards=8, timeout=800, env=ENV)
    c.harness(t, [c.scale(1500, 20000), "concurrent"], shards=8, timeout=800, env=TENV)
    return dict(rule="random histories; distinct by operations and reachable set sizes", assumptions=["collection and scrubbing run with no other references than the module's, as documented"])
