from common import *
TECH = "model-based runtime monitor of API histories under ASan/UBSan"
NOTE = ("Every getter is compared with an independent descriptor model after every call of random histories, in both the C and the C++ flavour of the runtime; "
        "strided element addressing compared pointer by pointer. Trusts the harness model; dimensions whose product fits int64.")
def build():
    return (link("p01c", [hobj("p01.cpp", flags=["-DC_RT"])] + crt(), ASAN),
            link("p01x", [hobj("p01.cpp")] + cxxrt(), ASAN))
def run(c):
    exc, exx = build()
    n = c.scale(12000, 400000)
    c.harness(exc, [n], shards=4, timeout=600)
    c.harness(exx, [n], shards=8, timeout=600)
    return dict(rule="random tensor histories (create by any constructor, then setters) and strided views, element addressing, tolerance pairs; "
                "non-trivial: more than one element or at least one setter applied; distinct by shape/strides/type/operation sequence",
                assumptions=["dimensions whose product fits int64"])
