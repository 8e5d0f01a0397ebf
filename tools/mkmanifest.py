#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks (run: python3 tools/mkmanifest.py)."""
import json, subprocess, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.run(["bash", os.path.join(R, "run.sh"), "list"], capture_output=True, text=True).stdout.split()
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = {}
exec(open(os.path.join(R, "tools", "technique.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        t, note = TECH.get(i, ("structured feed generation with an independent oracle over the tool's output", ""))
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t, "level": "exploration",
            "level_note": (note + " " if note else "") + COMMON})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash run.sh list", "checks": checks, "not_applicable": na,
     "notes": "All checks build /repo's working tree and run the resulting binary on generated feeds; see DESIGN.md. No hooks are needed."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
