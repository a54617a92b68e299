#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | breaks |", "|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['needs']} | {m['what_it_breaks']} |")
p = R + "/DESIGN.md"; s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
s = s.replace("@TABLE@", t) if "@TABLE@" in s else re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
