from common import *
TECH = "content/ledger monitor with injected system-call and allocation faults, ASan/UBSan/LSan"
NOTE = ("Random files, declared sizes, OM_CONSTANT_PATH settings, decoys and endianness flags; open/mmap/fstat/read/posix_memalign/malloc fail at a random call. Success must give exactly the file's "
        "bytes; failure must leave a NULL pointer, no descriptor, no mapping and no allocation. Both the mmap build and the read build (z/OS path) are run.")
W = ["open", "mmap", "munmap", "read", "fstat", "close", "posix_memalign", "malloc", "free", "calloc", "realloc"]
def build():
    wr = ["-Wl," + ",".join("--wrap=" + w for w in W)]
    h = obj(f"{H}/p09.cpp", [*ASAN, *HINC])
    return [link2(f"p09{i}", [h, obj(f"{RT}/OMExternalConstant.c", [*ASAN, *INC, *fl])], [*ASAN, *wr], []) for i, fl in enumerate(([], ["-D__MVS__", "-D__MAP_MEGA=MAP_SHARED"]))]
def run(c):
    a, b = build()
    c.harness(a, [c.scale(16000, 800000)], shards=8, timeout=800)
    c.harness(b, [c.scale(8000, 400000)], shards=8, timeout=800)
    return dict(rule="random file/size/location/flags/fault; distinct by system-call trace, outcome, location, endianness and fault", assumptions=["loads are serialised by the dynamic loader, which calls them from constructors"])
