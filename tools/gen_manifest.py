#!/usr/bin/env python3
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, os.path.join(root, "checks")); sys.path.insert(0, here)
import gen_properties
NA = {
 "P91": "The NNPA code does not build without zDNN and can only run on IBM Telum hardware; there is no execution to monitor here.",
}
checks, na = [], []
for p in gen_properties.P:
    pid = p["id"]
    f = os.path.join(root, "checks", pid.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module(pid.lower())
        checks.append({"property": pid, "quick_cmd": f"python3 checks/run.py {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {pid}",
                       "technique": m.TECH, "level": getattr(m, "LEVEL", "exploration"),
                       "level_note": m.NOTE, "evidence_file": f"evidence/{pid}.json"})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "Every check compiles the needed sources of /repo's working tree itself (content-addressed cache in /verif/build), runs them under workloads with sanitizers and monitors, and rewrites its evidence file. No hooks in /repo."}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
