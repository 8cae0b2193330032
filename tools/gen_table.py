#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (not run by any check)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json")); rows.append(f"| {d} | {m['property']} | {m.get('caught_by', m['property'] + ' quick')} | {m['needs']} |")
s = open(f"{R}/DESIGN.md").read()
s = re.sub(r"(<!-- table -->\n).*?(\n<!-- /table -->)", lambda x: x[1] + "\n".join(rows) + x[2], s, flags=re.S)
open(f"{R}/DESIGN.md", "w").write(s)
