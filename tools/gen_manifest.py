#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the harness implements."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set(subprocess.run([os.path.join(root, "harness/target/debug/qmv"), "list"], capture_output=True, text=True).stdout.split())
NA = {}
SPECIAL = {}
exec(open(os.path.join(root, "tools/manifest_notes.py")).read())
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [], "notes": NOTES}
for p in props:
    i = p["id"]
    if i in NA or i not in have:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    tech, note = SPECIAL.get(i, (DEFAULT_TECH, DEFAULT_NOTE))
    m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
