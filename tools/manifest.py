"""Rebuilds MANIFEST.json from the checks present. Run after adding a check."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T = json.load(open(os.path.join(V, "tools/techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = f"checks/{p['id'].lower()}.py"
    if os.path.exists(os.path.join(V, f)) and p["id"] in T:
        cmd = f"/opt/venv/bin/python {f}"
        checks.append({
            "property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
            "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1],
        })
    else:
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: programs are observed through the command's streams, exit status and the module bytes recorded by a library placed in front of the machine's."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
print(len(checks), "checks", len(na), "without")
