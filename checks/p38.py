from omf import *
TECH = "fault injection into model files and the external data beside them, with an online monitor of how the compiler ends: exit status, message, output written, signals"
NOTE = ("Files missing, directories, cut, noise, as protobuf, standard input, JSON, ONNX text and MLIR; undefined names, cycles, outputs nobody makes; initializers shorter or longer than their shapes, negative and overflowing shapes; external data missing, short, at wrong offsets, "
        "above the directory, absolute, behind symbolic and hard links, also of directories. All must be refused with a message and without a crash; forms (P37) has the valid counterparts. Left out: models inconsistent in operators' attributes, counts and types, where the compiler asserts.")
def run(c):
    models(c, build(), {"broken": c.scale(1500, 40000), "forms": c.scale(150, 1000)})
    return dict(rule="every kind of damage in turn, at random places of random models; distinct by model and damage", assumptions=ASSUME)
