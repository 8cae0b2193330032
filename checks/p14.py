from common import *
TECH = "crash injection in mock models; monitors of kernel signal dispositions, signal mask, exception and later runs"
NOTE = ("Histories of up to 12 runs in which the mock model succeeds, fails or dies by SIGSEGV/SIGBUS/SIGFPE/SIGILL/SIGABRT (real faults and raised, at random stack depth, on the main or another thread), with random dispositions, flags and masks installed beforehand; "
        "all 62 dispositions (read from the kernel) and the mask are compared before/after each run.")
def build():
    fl = ["-O1", "-g", "-fno-sanitize=all"]
    exe = link2("p14", [obj(f"{H}/p14.cpp", [*fl, *HINC, *LLVM_CXX]), *cxxrt("plain", session=True)], [*fl, "-rdynamic"], ["-ldl", "-lpthread"])
    return exe, mockmodel("p14m", "", "m")
def run(c):
    exe, lib = build()
    c.harness(exe, [c.scale(16000, 600000), lib], shards=8, timeout=800)
    return dict(rule="random histories of crashing and normal runs; distinct by the sequence of actions", assumptions=["one protected run at a time (documented as not thread safe)", "signals arise on the thread that runs the model, outside stack overflow"])
