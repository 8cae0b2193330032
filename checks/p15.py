from common import *
TECH = "ThreadSanitizer plus comparison of every concurrent result with the result of the same operation run alone"
NOTE = ("2-6 threads run random sequences of runtime operations (tensors, lists, sort, top-k, unique, resize, lookup, conversions, printing, constant files, a shared session, own sessions) with barriers, yields and delays; "
        "any TSan report or any result that differs from the sequential one is a violation. Distinct = distinct interleavings of operation starts and ends.")
def build():
    fl = [*TSAN, *HINC, *LLVM_CXX]
    o = objs([f"{RT}/{f}" for f in ("ExecutionSession.cpp", "OMTensorHelper.cpp", "OMTensorListHelper.cpp")], [*TSAN, *INC, *LLVM_CXX])
    return link2("p15", [obj(f"{H}/p15.cpp", fl), *o, *crt("tsan")], [*TSAN, "-rdynamic"], ["-ldl", "-lpthread", "-lm"]), mockmodel("p15m", "", "m")
def run(c):
    exe, lib = build()
    c.harness(exe, [c.scale(1600, 60000), lib], shards=8, timeout=800, env={"TSAN_OPTIONS": "exitcode=79:halt_on_error=1:history_size=4"})
    return dict(rule="random operation mixes; distinct by the observed interleaving of operation starts and ends", assumptions=["debug helpers (random fill), runDebug with signal handler and instrumentation are process-global by design and excluded"])
