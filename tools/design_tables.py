#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | what breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {c(d['needs'])} | {c(d['what_it_breaks'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- seeded -->", "<!-- /seeded -->"
s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: b + "\n" + "\n".join(rows) + "\n" + e, s, flags=re.S)
open(p, "w").write(s)
