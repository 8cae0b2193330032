from omf import *
TECH = "runs of multi-operator models the real compiler rewrote, fused and lowered, judged by an online monitor against values computed operator by operator with the ONNX reference evaluator and oracles of our own"
NOTE = ("Graphs built around what the rewriting passes look for (canonicalisation, decomposition, recomposition, convolution merging, layer normalisation, Gelu, shape arithmetic, transposes, reshapes, casts, clips, quantised products, "
        "element-wise fusion) and what only resembles it, plus random sequences; opsets 13-22, static and dynamic dimensions, -O0 to -O3. Every intermediate value may also be an output.")
def run(c):
    models(c, build(), {"graphs": c.scale(1100, 40000), "known31": 100})
    return dict(rule="each graph generator in turn, then weighted random; distinct by opset, operators, attributes, operand shapes, types, dynamic dimensions and constants", assumptions=ASSUME)
