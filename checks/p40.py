from omf import *
TECH = "compiled models that call generated C functions, built in as custom operators; the functions record what they are given and the monitor holds it, and the model's results, against the model"
NOTE = ("Functions of any number of tensors of every element type, with attributes of every kind the interface carries; shapes inferred as the operator declares, alone and among other operators, at every optimisation level, part of the models under the address sanitizer.")
def run(c):
    models(c, build(("plain", "asan")), {"custom": c.scale(700, 15000)})
    return dict(rule="one model per case at random; distinct by model and options", assumptions=ASSUME)
