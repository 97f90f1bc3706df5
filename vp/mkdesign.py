#!/usr/bin/env python3
"""Regenerates the tables of DESIGN.md from cases.py, properties.jsonl and (when present) seeded/."""
import glob
import json
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases as C  # noqa: E402
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
title = {p["id"]: p["title"] for p in map(json.loads, open(V + "/properties.jsonl"))}
rows = ["| id | harness (quick/thorough cases) | symbolic | bounds (quick; thorough adds more) |", "|----|---------|----------|-------------------------------------|"]
for pid in sorted(C.PROPS):
    m = C.PROPS[pid]
    srcs = sorted({c.src for c in m["cases"]})
    rows.append("| %s %s | %s (%d/%d) | %s | %s; outside: %s |" % (
        pid, title[pid], ", ".join(srcs), len([c for c in m["cases"] if c.tier == "quick"]), len(m["cases"]), m["symbolic"], m["bounds"], m["outside"]))
seeds = ["| planted bug | property | needs | caught by |", "|----|----|----|----|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
s = open(V + "/DESIGN.md").read()
for tag, r in (("table", rows), ("seeds", seeds)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + "\n".join(r) + "\n" + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
