#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = s[: s.index("## Seeded changes")]
also = {}
f = os.path.join(root, "tools", "also.json")
if os.path.exists(f):
    also = json.load(open(f))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    one = lambda t: re.sub(r"\s+", " ", t).replace("|", "/").strip()
    rows.append(f"| {d} | {one(m['what_it_breaks'])} | {one(m['needs'])} | {', '.join(also.get(d, [m['property']]))} |")
s = head + f"""## Seeded changes

{len(rows)} planted bugs, each with a demonstration, in `seeded/`. The last column names
checks (quick tier, seed 1) that report them.

| id | breaks | needs | caught by |
|----|--------|-------|-----------|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
