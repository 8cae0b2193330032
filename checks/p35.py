from omf import *
TECH = "runs of compiled models whose entry points, signatures and input verification are read and called as a client would, with an online monitor that holds the signatures and refusals against the ONNX model"
NOTE = ("Signatures parsed as JSON and compared name by name, type by type and dimension by dimension with the model and the tensors really returned; names with quotes, backslashes, control characters and UTF-8; tagged and untagged entry points; "
        "inputs of a wrong type, rank or static dimension or too few of them must be refused with errno 22 under --verifyInputTensors; dimension names, equal, empty or odd, must not change results. Every optimisation level.")
def run(c):
    models(c, build(), {"iface": c.scale(600, 15000), "named": c.scale(700, 20000)})
    return dict(rule="models at random over operators and graphs; inputs wrong in one way each; distinct by opset, operators, shapes, options, signatures", assumptions=ASSUME)
