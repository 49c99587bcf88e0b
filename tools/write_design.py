#!/usr/bin/env python3
"""Writes DESIGN.md: the text of DESIGN.in.md and the table of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
t += "| id | caught by | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    t += f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(t)
