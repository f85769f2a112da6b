#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md and the table of planted bugs."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
MISSED = json.load(open("tools/missed.json"))
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    i = f.split("/")[1]
    rows.append(f"| {i} | {d['needs']} | {MISSED.get(i, '')} |")
out = open("tools/design_head.md").read()
out += f"""
## Planted bugs

{len(rows)} bugs, written from the text of a property and the code.  Each is
caught by the quick check of the property in its name.  The last column says
what was added where the checks of the time missed it.

| bug | needs | missed at first; what catches it now |
|---|---|---|
""" + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(out)
