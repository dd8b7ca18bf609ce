#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the explorers that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); R = os.path.join(HERE, "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(HERE, "level_notes.py")).read()) if os.path.exists(os.path.join(HERE, "level_notes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(R, "mc/src/bin", i.lower() + ".rs")):
        na.append({"property": i, "reason": "explorer not built yet"})
        continue
    tech, note = NOTES.get(i, (
        "bounded-exhaustive explicit exploration of the real code against a reference model",
        "Every case of the stated finite spaces is executed on the real compiled code and compared with an independent reference model; nothing is claimed outside those bounds."))
    checks.append({"property": i,
        "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All of scarlet's API needed by the checks is public, so /repo carries no hooks. Fixed defects and known findings: known-findings.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks", len(na), "n/a")
