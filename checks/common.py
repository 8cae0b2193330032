import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
H = os.path.join(VERIF, "harness")
HINC = [f"-I{VERIF}/tools", f"-I{H}", *INC]

def crt(mode="asan"):
    """The C runtime a model is linked with."""
    return objs(c_runtime_sources() + [f"{REPO}/src/Support/SmallFPConversion.c"], [*MODES[mode], *INC])

LLVM_CXX = ["-I/usr/lib/llvm-20/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-std=c++17"]
def cxxrt_sources(session=False):
    s = [f"{RT}/{f}" for f in sorted(os.listdir(RT)) if f.endswith(".cpp") and (session or f != "ExecutionSession.cpp")]
    return s
def cxxrt(mode="asan", session=False, extra=()):
    fl = [*MODES[mode], *INC, *(LLVM_CXX if session else []), *extra]
    return objs(cxxrt_sources(session), fl) + objs([f"{REPO}/src/Support/SmallFPConversion.c"], [*MODES[mode], *INC])

def hobj(name, mode="asan", flags=()):
    return obj(f"{H}/{name}", [*MODES[mode], *HINC, *flags])

def mockmodel(name, tag="", id="m", without=(), extra=()):
    """A shared library that looks like a compiled model and forwards its calls to the host program."""
    fl = [f'-DTAG="{tag}"', f'-DID="{id}"', *[f"-DNO_{w}" for w in without], "-fPIC", "-O1", "-g", *extra]
    o = obj(f"{H}/mockmodel.c", fl)
    return link2(f"{name}.so", [o], ["-shared", "-Wl,--build-id=sha1"], [], cc="clang")
