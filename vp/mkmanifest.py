#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and cases.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases as C
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C33": "auto_test/ is a header-only C++ gtest framework compiled into a user's binary: CBMC's C++ front end does not get through <string>, <vector> and gtest.h, the framework's behaviour is gtest registration plus iostream output, and its subject (the user's library) is not in this repository, so there is no function here to execute symbolically.",
}
TECH = {
    "C06": "bounded symbolic execution of the C sources (CBMC) with one solver-chosen failing allocation per query; SAT back end; native replay",
    "C30": "bounded symbolic self-composition (two calls, unconstrained fresh memory) with CBMC and SMT/SAT back ends; native replay",
    "C32": "bounded symbolic execution of call sequences (self-composition) with CBMC and SMT/SAT back ends; native replay",
}
out = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
           notes="No hooks: /repo's sources are compiled as they are, with malloc/free/calloc/realloc renamed on the compiler's command line. `python3 vp/replay.py <file>` re-runs a reported counterexample against /repo's current code.")
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        out["not_applicable"].append(dict(property=i, reason=NA[i]))
        continue
    m = C.PROPS[i]
    out["checks"].append(dict(
        property=i, quick_cmd="python3 vp/check.py %s" % i, thorough_cmd="python3 vp/check.py %s --tier thorough" % i,
        technique=TECH.get(i, "bounded symbolic execution of the C sources (CBMC) decided by SMT/SAT solvers (cvc5, z3, MiniSat); every counterexample replayed natively"),
        level=m.get("level", "model_checking"),
        level_note="Solver verdict over all values of: %s. Bounds: %s. Outside: %s. Trusts CBMC, the solvers and the listed stubs (libm as constrained functions, counting malloc)." % (m["symbolic"], m["bounds"], m["outside"])))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
