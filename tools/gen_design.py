#!/usr/bin/env python3
"""Fills the table of seeded bugs in DESIGN.md from /verif/seeded (run by hand)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = f"{V}/DESIGN.md"; s = open(p).read()
table = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("@SEEDED@", table) if "@SEEDED@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: table, s, flags=re.S)
open(p, "w").write(s)
