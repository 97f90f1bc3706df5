#!/bin/bash
# The checks build everything from /repo's current sources at run time; setup only
# makes sure the installed tools answer.
set -e
cd "$(dirname "$0")"
for t in cbmc goto-cc gcc cvc5 z3 python3; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
python3 -c 'import sys; sys.path.insert(0, "vp"); import cases; print(len(cases.PROPS), "properties,", sum(len(p["cases"]) for p in cases.PROPS.values()), "cases")'
mkdir -p evidence replays
