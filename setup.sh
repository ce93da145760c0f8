#!/bin/bash
# builds the facts driver and type-checks /repo once (so that the checks find the dependencies built)
cd "$(dirname "$0")" || exit 2
exec python3 - <<'P'
import sys, runpy
sys.argv = ["run.py"]
sys.path.insert(0, "rules")
src = open("rules/run.py").read().replace("\nmain()\n", "\n")
import os
g = {"__file__": os.path.abspath("rules/run.py"), "__name__": "setup"}
exec(compile(src, "rules/run.py", "exec"), g)
print("facts:", g["ensure_facts"]())
P
