from omf import *
TECH = "address and memory sanitizers inside the generated code: the compiler's LLVM IR is instrumented before code generation, linked with the runtime built the same way, and run; any report, leak or changed input is a violation"
NOTE = ("The single-operator and graph generators of P30 and P31 with inputs at the edges (far indices, empty dimensions, broadcasts, strides, pads); every load and store of generated loops, every buffer freed or handed out, every value read before it is written, "
        "with the runtime, the entry point and the runner under the same sanitizer; inputs of exact size so that reading past them is seen.")
def run(c):
    models(c, build(("plain", "asan", "msan")), {"memory": c.scale(1000, 30000), "memctl": c.scale(150, 5000)})
    return dict(rule="each operator generator in turn, then at random; distinct by opset, operators, attributes, operand shapes, types and sanitizer", assumptions=ASSUME)
