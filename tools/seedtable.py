#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json (the last column is what run_seeds.py confirmed)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs'].strip().rstrip('.')} | {m['property']} quick |")
d = open(V + "/DESIGN.md").read()
a = d.index("| change |")
m = re.search(r"\n\n", d[a:]); e = a + m.start() if m else len(d)
t = "| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
open(V + "/DESIGN.md", "w").write(d[:a] + t + d[e:].rstrip("\n") + "\n")
