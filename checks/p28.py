from common import *
TECH = "online comparison of the printed text with a rendering made from scratch of the logical tensor, under ASan/UBSan with exactly sized buffers, messages and shapes"
NOTE = "13 element types, ranks 0 to 6, empty and scalar tensors, dense, transposed, broadcast and gapped layouts, offsets, random messages; the C runtime of a model (also into the instrument file) and the C++ runtime; tensors must come out unchanged."
def build():
    return (link2("p28c", [hobj("p28.cpp"), *crt("asan")], ASAN, ["-lm"]), link2("p28cpp", [hobj("p28.cpp"), *cxxrt("asan")], ASAN, []))
def run(c):
    a, b = build()
    c.harness(a, [c.scale(16000, 400000), "c"], shards=8, timeout=800)
    c.harness(b, [c.scale(8000, 200000), "cpp"], shards=8, timeout=800)
    return dict(rule="random tensors and messages; distinct by types, ranks and messages", assumptions=["a signature is printed of dense tensors only (the element count is defined for those)"])
