from omf import *
TECH = "runs of models with branches, loops and scans, judged by an online monitor against an evaluator of its own that interprets control flow and leaves single operators to the ONNX reference evaluator"
NOTE = ("If with captured values and different knowledge of shapes, Loop as for, while and both, with trip counts constant, computed, zero or derived from a counter, Scan with several states and elements, states exchanged, handed through, reshaped or given out, "
        "values of outer scopes, nests up to three deep; every optimisation level. Left out: loops inside branches (known finding), scan outputs of while loops and dynamic scans (refused by the compiler).")
def run(c):
    models(c, build(), {"control": c.scale(1300, 40000), "known36": 100})
    return dict(rule="kinds of control flow in turn, then at random; distinct by opset, operators, nested graphs, operand shapes and constants", assumptions=ASSUME)
