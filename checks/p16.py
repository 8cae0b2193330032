from common import *
TECH = "generated lists monitored against an independent model of signature, overrides and bounds under ASan/UBSan/LSan, with hostile signatures and requests"
NOTE = ("Random signatures (all types, ranks 0-5, dynamic and zero dimensions, white space, key order, escaped names) with random shape overrides, value specs and bounds; every tensor's type, shape, ownership and every element is checked; "
        "same-seed replay and other-seed difference; range coverage of the values; malformed signatures, texts, impossible bounds and overflowing shapes must be refused.")
def build():
    o = objs([f"{RT}/OMTensorHelper.cpp", f"{RT}/OMTensorListHelper.cpp"], [*ASAN, *INC])
    return link2("p16", [hobj("p16.cpp"), *o, *crt("asan")], ASAN, ["-lm"])
def run(c):
    c.harness(build(), [c.scale(24000, 1500000)], shards=8, timeout=800)
    return dict(rule="random signature, override, value and bound combinations; distinct by the full request text", assumptions=["float16 soz, integer ranges without integers and override lists of another rank are left undecided"])
