from common import *
TECH = "round-trip monitor: tables built by the real compile-time hash are looked up by the real runtime, under ASan/UBSan with exact-size tables"
NOTE = ("Random and adversarial key sets (int64 extremes, 19-digit negatives, dense ranges, empty/long/high-byte strings, 1 to 3000 keys): each key must return the index the "
        "compiler stored; V must be a permutation; unknown keys must stay in bounds. Keys with an embedded NUL cannot reach the runtime, which takes C strings.")
def build():
    fl = [*ASAN, *HINC, *LLVM_CXX, "-DNDEBUG"]
    return link2("p07", [obj(f"{H}/p07.cpp", fl), obj(f"{REPO}/src/Conversion/ONNXToKrnl/PerfectHash.cpp", fl), *objs([f"{RT}/OMIndexLookup.c"], [*ASAN, *INC])], ASAN, ["-L/usr/lib/llvm-20/lib", "-lLLVM", "-Wl,-rpath,/usr/lib/llvm-20/lib"])
def run(c):
    c.harness(build(), [c.scale(4000, 200000)], shards=8, timeout=800)
    return dict(rule="random key sets; distinct by their keys, sets of at least two keys", assumptions=["string keys contain no NUL byte"])
