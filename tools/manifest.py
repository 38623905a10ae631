#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those `splrcheck list` names."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
have = subprocess.run([f"{root}/target/release/splrcheck", "list"], capture_output=True, text=True).stdout.split()
notes = json.load(open(f"{root}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = notes[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "./check.sh C01 build",
     "hooks": {"guard": "none", "enable": "no hooks: everything the checks use is public in splr", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check is property-based testing: generated cases in worker subprocesses against an explicit oracle; see DESIGN.md. Fixed defects are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
