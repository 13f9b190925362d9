#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py + properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        continue
    s = PLAN[i]
    checks.append({"property": i,
                   "quick_cmd": "python3 tools/check.py --prop %s --tier quick" % i,
                   "thorough_cmd": "python3 tools/check.py --prop %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": s.get("technique", "property-based testing: generated histories against a reference model, shrunk replays"),
                   "level": "exploration",
                   "level_note": s.get("note", "Randomised search with an explicit oracle over generated cases on several process counts; "
                                       "shows no violation in the cases explored, not absence. Trusts the harness' reference model, MPI and Kokkos.")})
have = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "DYABLO_VERIF", "enable": "checks compile /repo's sources with -DDYABLO_VERIF (no hook commit uses it at present)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "python3 tools/check.py --replay FILE re-runs a saved reproduction. Drivers are rebuilt from /repo's working tree by content hash."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
