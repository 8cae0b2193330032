from common import *
from p19 import LLVM, GEN, options
from p23 import ENV
TECH = "the compiler's real main() with a recorder in place of the compilation: every option variable it ends up with is compared with a model of the documented precedence; API histories and JSON files monitored under ASan/UBSan"
NOTE = ("Random configuration files (default and explicit, malformed, missing, decoys in other directories), environments (default and custom variable), command lines and option spellings, install layouts; "
        "all option variables, the recorded options, output names, libraries and tools are compared; random histories of set/get/clear, compiler configurations and JSON load/store with unwritable files.")
VPY = "/opt/vp/venv/bin/python"
def build():
    o = options("asan")
    main = link2("omain", [hobj("omain.cpp", flags=[*GEN]), *objs([f"{REPO}/src/onnx-mlir.cpp"], [*ASAN, *INC, *GEN, "-include", f"{H}/llvmcompat.hpp"]), *o], ASAN, LLVM)
    api = link2("p26", [hobj("p26.cpp", flags=[*GEN]), *o], ASAN, LLVM)
    return main, api
def run(c):
    main, api = build()
    c.harness(VPY, [f"{H}/p26.py", c.scale(1300, 60000), main], shards=8, timeout=800, env=ENV, name="p26main")
    c.harness(api, [c.scale(10000, 400000)], shards=8, timeout=800, env=ENV)
    return dict(rule="random option sets and histories; distinct by the options of each source and the way the configuration is given, or by the history", assumptions=["array items of compile_options that are not strings, and options holding several words, are undecided", "empty triples, architectures and cpus are rejected by assertions"])
