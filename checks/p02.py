from common import *
TECH = "allocation-ledger monitor over random API histories and injected allocation failures, ASan/LSan"
NOTE = ("After every call of a random ownership history the set of freed buffers recorded by interposed malloc/free must equal the model's; every allocation of every constructor is also failed once. "
        "Histories respect the documented ownership rules; both C and C++ flavours are run.")
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
def build():
    return (link("p02c", [hobj("p02.cpp", flags=["-DC_RT"])] + crt(), ASAN + WRAP),
            link("p02x", [hobj("p02.cpp")] + cxxrt(), ASAN + WRAP))
def run(c):
    exc, exx = build()
    n = c.scale(6000, 300000)
    c.harness(exc, [n], shards=8, timeout=600)
    c.harness(exx, [n], shards=8, timeout=600)
    return dict(rule="random histories of 5-60 create/destroy/disown/own/re-point/list/list-destroy calls; each call is followed by a comparison of the free ledger with the model; "
                     "distinct by the sequence of operations; plus each constructor with its k-th allocation failing")
