from common import *
from p19 import LLVM
from p23 import attrs, ENV
import subprocess
TECH = "runtime monitor of the real conversions and tables over all 8/16-bit patterns and random wide values under ASan/UBSan, against tables and rounding rules written down from the ONNX standard and the installed onnx/numpy packages"
NOTE = "Every 8- and 16-bit pattern is widened, narrowed and cast to every element type in every mode; 32/64-bit values are random and around the limits, ties and halves. A float result that only differs by rounding through double or float first is accepted (documented in the code)."
PY = "/opt/vp/venv/bin/python"
REF = r"""
import json, numpy as np, onnx
from onnx import TensorProto, helper
out = {}
for name, v in TensorProto.DataType.items():
    try: dt = helper.tensor_dtype_to_np_dtype(v); item = dt.itemsize; np_name = dt.name
    except Exception: item, np_name = None, None
    out[v] = [name, item, np_name]
print(json.dumps(out))
"""
def build():
    return link2("p25", [hobj("p25.cpp", flags=LLVM_CXX), obj(f"{RT}/OnnxDataType.cpp", [*ASAN, *INC]), *attrs("asan")], ASAN, LLVM)
MLIR = {1: "f32", 2: "ui8", 3: "i8", 4: "ui16", 5: "i16", 6: "i32", 7: "i64", 8: "string", 9: "i1", 10: "f16", 11: "f64", 12: "ui32", 13: "ui64", 14: "complex64", 15: "complex128", 16: "bf16", 17: "f8e4m3fn", 18: "f8e4m3fnuz", 19: "f8e5m2", 20: "f8e5m2fnuz", 21: "ui4", 22: "i4"}
NUMPY = {1: "float32", 2: "uint8", 3: "int8", 4: "uint16", 5: "int16", 6: "int32", 7: "int64", 8: "str", 9: "bool", 10: "float16", 11: "float64", 12: "uint32", 13: "uint64", 14: "complex64", 15: "complex128", 16: "bfloat16"}
def rows(c, exe):
    ref = {int(k): v for k, v in json.loads(subprocess.run([PY, "-c", REF], capture_output=True, text=True, check=True).stdout).items()}
    p = subprocess.run([exe, "1", "rows"], capture_output=True, text=True, env={**os.environ, **default_opts(), **ENV})
    seen, names = {}, {}
    def bad(key, text): c.violate("row:" + key, text, {"argv": [exe, "1", "rows"]})
    if p.returncode: bad("failed", p.stderr[-2000:])
    for line in p.stdout.splitlines():
        k, _, rest = line.partition(" "); f = rest.split("|"); c.eval(1)
        if k == "NAME": names[int(f[0])] = f[1:]; continue
        if k != "ROW" or f[0] == "ONNX_TYPE_LAST": continue
        e, v, size, dname, ml, npn = f[0], int(f[1]), int(f[2]), f[3], f[4], f[5]
        std = ref.get(v)
        if not std or "ONNX_TYPE_" + std[0] != e: bad(e, f"{e} is {v}, which ONNX calls {std and std[0]}"); continue
        if v in seen: bad(e, f"{v} appears twice")
        seen[v] = f
        if v == 0: continue
        if v != 8 and std[1] is not None and size != max(1, std[1]): bad(e + ":size", f"{size} bytes, numpy {std[1]}")
        if v == 8 and size != 8: bad(e + ":size", f"{size}")
        if ml.lower() != MLIR.get(v): bad(e + ":mlir", ml)
        if npn.rstrip("_") != NUMPY.get(v, ""): bad(e + ":numpy", npn)
        if v <= 15 and v != 8 and npn.rstrip("_") != std[2]: bad(e + ":numpy-standard", f"{npn} {std[2]}")
        c.eval(0, 1)
    for v, f in seen.items():
        if names.get(v) != [f[2], f[3]]: bad(f"array:{v}", f"runtime arrays hold {names.get(v)}, declared {f[2:4]}")
    if set(range(0, 23)) - set(seen): bad("missing", f"no row for {sorted(set(range(23)) - set(seen))}")
    if len({f[4] for f in seen.values()}) != len(seen) or len({f[3] for f in seen.values()}) != len(seen): bad("names", "two types share a name")
    c.count("table_rows", len(seen))
def run(c):
    exe = build()
    c.harness(exe, [c.scale(30000, 400000)], shards=8, timeout=800, env=ENV)
    rows(c, exe)
    return dict(rule="all patterns of 8/16-bit types and random values of the others, cast between all pairs of types in all modes; distinct by pair and mode, type, shape and shape string", assumptions=["default rounding mode", "single casts: a chain of integer casts is documented to see untruncated numbers", "results that differ from direct rounding only through an intermediate double or float are accepted"])
