from common import *
from p18 import driver
TECH = "announced names monitored against the compiler's own option definitions parsed by LLVM in the same process, and against the files a compiler with that parser writes, under ASan/UBSan"
NOTE = ("Random flags in random spellings and quoting with output names, directories, dots, tags, all emission targets, other options with and without '=', models in or outside of the flags, output directories and session histories.")
GEN = [f"-I{H}/gen", *LLVM_CXX]
def options(mode):
    fl = [*MODES[mode], *INC, *GEN]
    return objs([f"{REPO}/src/Compiler/CompilerOptions.cpp", f"{REPO}/src/Compiler/JsonConfigObject.cpp", f"{REPO}/src/Accelerators/Accelerator.cpp"], fl)
LLVM = ["-L/usr/lib/llvm-20/lib", "-lMLIR", "-lLLVM", "-Wl,-rpath,/usr/lib/llvm-20/lib", "-lpthread"]
def optcc():
    return link2("optcc", [hobj("optcc.cpp", "plain", GEN), *options("plain"), *objs([f"{REPO}/src/Compiler/CommandUtils.cpp"], [*PLAIN, *INC, "-std=c++17"])], [], LLVM)
def build():
    return link2("p19", [hobj("p19.cpp", flags=GEN), *driver(), *options("asan")], ASAN, LLVM), optcc()
def run(c):
    exe, cc = build()
    c.harness(exe, [c.scale(1600, 60000), cc], shards=8, timeout=800)
    return dict(rule="random argument vectors accepted by the compiler's parser; distinct by arguments and model", assumptions=["configuration files and ONNX_MLIR_FLAGS are not used, as the driver documents", "options the compiler rejects are undecided", "the rule from option values to file names is that of the compiler's main and is part of the oracle"])
