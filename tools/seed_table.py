#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[:s.index(MARK)] if MARK in s else s.rstrip("\n") + "\n\n"
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
s += MARK + """
Each was confirmed with tools/plant.py: the patch applies and builds, the stable tests pass, the demonstration fails with it and passes
without it.  "Caught by" is the check whose run (quick tier, seed 1) reports it.

| bug | needs | breaks | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
