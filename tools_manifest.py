#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented monitors."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
have = subprocess.run([f"{here}/target/release/molluscmon", "list"], capture_output=True, text=True).stdout.split()
tech = json.load(open(f"{here}/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = tech[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": "not claimed yet: its monitor is still being built"})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
