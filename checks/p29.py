from common import *
from p19 import LLVM
TECH = "offline comparison of what the real binary-decoder (under ASan/UBSan) prints, and of what it leaves on disk, with the bytes of random files"
NOTE = "11 element types; files, links, sparse files beyond 2 and 4 GiB, missing files and directories; ranges inside, at and past the end, negative, huge and overflowing; missing and unsupported types; removal on and off."
VPY = "/opt/vp/venv/bin/python"
def build():
    return link2("binary-decoder", objs([f"{REPO}/src/Tools/binary-decoder/BinaryDecoder.cpp"], [*ASAN, *INC, *LLVM_CXX, "-DONNX_ML=1", "-DONNX_NAMESPACE=onnx", "-w"]), ASAN, ["-lonnx", "-lonnx_proto", "-lprotobuf", *LLVM])
def run(c):
    c.harness(VPY, [f"{H}/p29.py", c.scale(2400, 100000), build()], shards=8, timeout=800, name="p29", env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=0"})
    return dict(rule="random files, ranges and types; distinct by kind, range, type and removal", assumptions=["a floating-point value is shown with the stream's default precision", "what a range holding a part of an element decodes to is undecided (it is never wrong elements)", "unsupported types are rejected, not decoded"])
