#!/usr/bin/env python3
"""builds every driver once, in the modes used by the quick checks (checks rebuild what changed)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from targets import TARGETS
from plan import PLAN
todo = []
for p in PLAN.values():
    for j in p["quick"]:
        k = (j.get("driver") or p["driver"], j.get("mode") or "rel")
        if k not in todo:
            todo.append(k)
for n, mode in todo:
    t = TARGETS[n]
    print(build.build(n, t["drivers"], t["folders"], mode, t.get("extra", ())), flush=True)
