from omf import *
TECH = "runs of models the real compiler built from random ONNX operators, judged by an online monitor against the ONNX reference evaluator and oracles of our own"
NOTE = ("Every operator the CPU code supports in turn and then at random: attributes, opsets 7-22, ranks, broadcast, static and dynamic dimensions, constant and runtime operands, element types, -O0 to -O3; "
        "values (within a tolerance for floats), shapes, types and the number of results are judged.")
def run(c):
    models(c, build(), {"ops": c.scale(1300, 40000), "known30": 100})
    return dict(rule="one model per operator generator in turn, then weighted random; distinct by opset, attributes, operand shapes, types, dynamic dimensions and constants", assumptions=ASSUME)
