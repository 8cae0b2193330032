from omf import *
TECH = "runs of models whose operands were folded by the compiler's constant propagation, wholly or in part, judged by an online monitor against the ONNX reference evaluator and against the same model computed at run time"
NOTE = ("Every operator and graph generator with all, some or none of its operands constant, and generators of its own (associations of constants and values, chains of data movement read through strides, reductions, products, ranges), "
        "element types from bool to float64, zeros, ones, splats and broadcasts; with constant propagation on, bounded and off.")
def run(c):
    models(c, build(), {"consts": c.scale(1100, 40000), "known32": 100})
    return dict(rule="each generator in turn, then at random; distinct by opset, operators, attributes, operand shapes, types, constants and the way they are folded", assumptions=ASSUME)
