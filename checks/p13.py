from common import *
TECH = "mock model libraries logging every call, session state machine as oracle, library/environment/errno monitors, ASan/UBSan/LSan"
NOTE = ("Random histories of construct/load/query/entry/signature/run/destroy over up to three sessions and copies of 14 mock libraries (tags, missing symbols, no library at all) under random names and environments; "
        "each outcome is compared with a model of the session; libraries still mapped, environment changes, wrong tensors, foreign exceptions and leaks are violations.")
KINDS = [("a", "_model7", ""), ("b", "_model7", ""), ("c", "", ""), ("d", "_my-net_v2.1", ""), ("e", "_x", ""), ("f", "_other", ""), ("g", "_a b", ""), ("nq", "_x", "q"), ("ni", "_x", "i"), ("no", "_model7", "o"), ("nn", "_x", "n"), ("np", "_model7", "p"), ("nm", "_x", "m"), ("nnp", "", "np")]
W = dict(q="QUERY", i="IN", o="OUT", n="INFO", p="PRINT", m="MAIN")
def build():
    # assembler symbol names with blanks are not portable: that tag stays unmatched on purpose
    libs = [(i, t, w, mockmodel(f"p13{i}", t if " " not in t else "_ab", i, [W[x] for x in w])) for i, t, w in KINDS]
    fl = [*ASAN, *HINC, *LLVM_CXX]
    exe = link2("p13", [obj(f"{H}/p13.cpp", fl), *cxxrt(session=True)], [*ASAN, "-rdynamic"], ["-ldl", "-lpthread"])
    return exe, [f"{i}|{t if ' ' not in t else '_ab'}|{w}|{p}" for i, t, w, p in libs]
def run(c):
    exe, libs = build()
    c.harness(exe, [c.scale(6000, 200000), *libs], shards=8, timeout=800)
    return dict(rule="random call histories; distinct by sequence of operations, tags, libraries and run outcomes", assumptions=["real compiled models cannot be built here; mock libraries have the documented symbols"])
