from omf import *
TECH = "each generated model rewritten into other forms, compiled from those and run, with an online monitor that holds results against the ONNX semantics and repeated compilations against each other byte by byte"
NOTE = ("Models as protobuf file, standard input, JSON (both field spellings) and ONNX text with comments and free line breaks; initializers raw, in typed fields, in external files (offsets, padding, several files) or as Constant nodes of every kind; "
        "nodes in any order; stretches of the graph in model-local functions, called through one another, with attributes passed or by default; 40% compiled a second time elsewhere: the object must be the same. Every optimisation level. "
        "Text is what the installed ONNX parser knows (no functions, no absent inputs).")
def run(c):
    models(c, build(), {"forms": c.scale(1100, 30000)})
    return dict(rule="one model per case, up to three rewritings and a file format at random; distinct by opset, operators, shapes, constants, forms", assumptions=ASSUME)
