from common import *
TECH = "the real driver starts a recording fake compiler; arguments, streams, status, session answers and the caller's process state are monitored under ASan/UBSan, with threads and interrupting signals"
NOTE = ("Random flags in random quoting styles, paths with blanks and quotes, log files, every exit status, 12 signals, missing and unexecutable compilers, absent inputs and outputs, in histories on one session; "
        "argv, directory and environment of the compiler and directory, descriptors, environment, signals, children, exit handlers and buffered output of the caller are compared; concurrent sessions.")
def driver(mode="asan"):
    return objs([f"{REPO}/src/Compiler/{f}.cpp" for f in ("Command", "CommandUtils", "OMCompile")], [*MODES[mode], *INC, "-std=c++17"])
def fakecc():
    return link2("fakecc", [obj(f"{H}/fakecc.c", ["-O1"])], [], [], cc="clang")
def build():
    return link2("p18", [hobj("p18.cpp", flags=["-std=c++17"]), *driver()], ASAN, ["-lpthread"]), fakecc()
def run(c):
    exe, cc = build()
    c.harness(exe, [c.scale(1200, 40000), cc], shards=8, timeout=800)
    return dict(rule="random flag texts, paths, logs, outcomes and histories; distinct by flags and outcome sequence", assumptions=["backslash escapes the next character everywhere, as parseFlags documents; empty arguments are dropped", "a log file that cannot be opened is undecided"])
