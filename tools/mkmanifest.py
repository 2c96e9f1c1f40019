#!/usr/bin/env python3
"""Writes MANIFEST.json and checks that it agrees with properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {}
def t(ids, technique, note):
    for i in ids.split():
        T[i] = (technique, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 checks/run.py " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                 "technique": T[p["id"]][0], "level": "model_checking", "level_note": T[p["id"]][1]}
                for p in props if p["id"] in T],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in T]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
