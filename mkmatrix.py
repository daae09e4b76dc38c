#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers) from caught.json."""
import json, os, re

H = os.path.dirname(os.path.abspath(__file__))
caught = json.load(open(f"{H}/caught.json"))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(caught.get(d, [])) or 'none'} |")
s = open(f"{H}/DESIGN.md").read()
t = "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@MATRIX@@", t) if "@@MATRIX@@" in s else re.sub(r"<!-- matrix -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(f"{H}/DESIGN.md", "w").write(s)
