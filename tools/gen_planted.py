#!/usr/bin/env python3
"""the table of planted changes in DESIGN.md, from seeded/"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    t.setdefault(json.load(open(os.path.join(V, "seeded", d, "meta.json")))["property"], []).append(d)
rows = "".join("| %s | %s |\n" % (p, ", ".join(t[p])) for p in sorted(t))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(\| property \| planted changes caught \|\n\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + rows, s)
open(f, "w").write(s)
