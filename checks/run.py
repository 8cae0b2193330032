#!/usr/bin/env python3
"""python3 checks/run.py P01   -- one check; VERIF_TIER, VERIF_SEED from the environment."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Check, BuildError
def main(pid):
    mod = importlib.import_module(pid.lower())
    c = Check(pid, getattr(mod, "LEVEL", "exploration"))
    try:
        kw = mod.run(c)
    except BuildError as e:
        print(f"{pid}: could not build the code under test or the harness:\n{e}")
        return 3
    return c.finish(**kw)
if __name__ == "__main__":
    sys.exit(main(sys.argv[1].upper()))
