from omf import *
TECH = "runs of the same model compiled under other options, or in two steps through a printed intermediate form, judged by an online monitor against the ONNX reference evaluator; every option of the compiler that claims to keep the meaning, alone and together"
NOTE = ("Options that switch passes off or on, bound or repeat them, instrument, profile, check or report, name or fix dimensions, store constants in files, tag entry points; alone and up to five together at any optimisation level, "
        "over the single-operator and graph generators of P30 and P31; EmitONNXBasic/EmitONNXIR printed and compiled again. Left out: --enable-krnl-buffer-reuse (known finding), --parallel (no OpenMP runtime here).")
def run(c):
    models(c, build(), {"options": c.scale(1100, 40000), "known33": 100})
    return dict(rule="each option in turn, then combinations at random; distinct by opset, operators, attributes, operand shapes, types, constants and options", assumptions=[*ASSUME, "a run stopped by MLIR's own check of reinterpret_cast under --enable-bound-check is counted, not judged (a false positive of the installed MLIR)"])
