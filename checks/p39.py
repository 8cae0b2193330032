from omf import *
TECH = "stress runs of compiled models from 2 to 8 threads that start together, plain and with generated code and runtime under the thread sanitizer, results held against a run alone and against the ONNX semantics"
NOTE = ("Half the threads pass other inputs than the rest, so that anything shared between calls shows in the results; first calls race for loading constants from a file; every optimisation level, operators and graphs of all the generators.")
def run(c):
    models(c, build(("plain", "tsan")), {"threads": c.scale(600, 15000)})
    return dict(rule="one model per case, threads, repetitions, sanitizer and options at random; distinct by model, sanitizer, threads", assumptions=ASSUME)
