#!/usr/bin/env python3
"""Builds what the checks need, from the committed files and /repo's tree."""
import importlib, os, sys, time, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))
os.environ.setdefault("VERIF_TIER", "quick")
bad = 0
import common, glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(here), "checks", "p[0-9]*.py"))):
    m = os.path.basename(f)[:-3]
    t = time.time()
    try:
        importlib.import_module(m).build()
    except Exception:
        traceback.print_exc(); bad += 1
    print(f"{m} {time.time()-t:.1f}s", flush=True)
sys.exit(0)  # a check that cannot be built says so itself
