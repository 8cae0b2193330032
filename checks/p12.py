from common import *
TECH = "offline checker over the recorded instrumentation log against the issued event history (virtual clock, faked ps), ASan/UBSan/LSan"
NOTE = ("Random histories of init/point/print calls (both protocols; paired, nested, before-only, after-only; up to 17000 events to overflow the record buffer), every setting of the environment variables, "
        "log on stdout, in a file or in a file that cannot be opened; the log is read back and must equal the line-by-line rendering of the history under the virtual clock.")
def build():
    wr = "-Wl," + ",".join("--wrap=" + w for w in ("gettimeofday", "popen", "pclose"))
    return link2("p12", [hobj("p12.cpp"), obj(f"{RT}/OMInstrument.c", [*ASAN, *INC])], [*ASAN, wr], [])
def run(c):
    c.harness(build(), [c.scale(6000, 200000)], shards=8, timeout=800)
    return dict(rule="random histories; distinct by event sequence (flags, op, node) and record counts", assumptions=["instrumentation is process-global and single-threaded, as in the code", "each inference starts with an init point"])
