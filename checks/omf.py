"""Compiled models: the compiler, the runners and the shared harness of P30-P38."""
from common import *
import omc
VPY = "/opt/vp/venv/bin/python"
O = f"{H}/omf"
def runner(mode):
    fl = {**MODES, "plain": ["-O1", "-g", "-fPIC"]}[mode]
    rt = objs(c_runtime_sources() + [f"{REPO}/src/Support/SmallFPConversion.c"], [*fl, *INC])
    return link2("omrun", [obj(f"{O}/runner.c", [*fl, *INC]), *rt], [*fl, "-rdynamic"], ["-lpthread", "-lm", "-ldl"], cc="clang")
def build(modes=("plain",)):
    return {"OMF_OMC": omc.onnx_mlir(), **{f"OMF_RUN_{m}": runner(m) for m in modes}}
def models(c, env, suites, timeout=700, extra=()):
    c.harness(VPY, [f"{O}/run.py", *[f"{k}={v}" for k, v in suites.items()], *extra], shards=8, timeout=timeout, env={**env, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}, name="models")
ASSUME = ["models are compiled for the host and loaded into a runner built from the same tree", "the compiler is built against the installed MLIR 20 (see DESIGN section 1)"]
