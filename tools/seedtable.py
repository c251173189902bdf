#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. The columns are the meta data; every
entry was confirmed with tools/plant.py, which runs the check of its property against the planted tree."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    c = lambda k: re.sub(r"\s+", " ", m[k]).replace("|", "/").strip().rstrip(".")
    rows.append(f"| {d} | {m['property']} | {c('needs')} | {c('what_it_breaks')} |")
t = open(R + "/DESIGN.md").read()
head = "## Planted bugs\n"
i = t.find(head); assert i >= 0
j = t.find("\n## ", i + 5); j = len(t) if j < 0 else j + 1
body = head + f"""
The {len(rows)} changes in `seeded/` were written from the property texts and the code. `tools/plant.py` builds each in a scratch copy,
runs the existing tests and the demonstration, and then the check. Every one is reported by the quick check of the
property named; those first missed led to the strengthenings noted below the table.

| change | caught by | needs | breaks |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
k = t.find("\n### What was missed at first", i)
if k >= 0 and k < j: body += t[k:j]
open(R + "/DESIGN.md", "w").write(t[:i] + body + t[j:])
