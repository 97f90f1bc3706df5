#!/usr/bin/env python3
"""python3 vp/replay.py <replay.json>: run a saved counterexample against /repo's current code."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E  # noqa: E402

j = json.load(open(sys.argv[1]))
eng = E.Engine(j["property"], 300)
try:
    ok, text = eng.replay(E.Case(j["case"], j["harness"], j["defs"]), j["extra"], "replay", [int(v, 16) for v in j["inputs"]])
finally:
    eng.cleanup()
print(text)
print("REPRODUCED" if ok else "NOT REPRODUCED")
sys.exit(1 if ok else 0)
