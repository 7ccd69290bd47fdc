#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add a monitor hook"], capture_output=True, text=True).stdout.split()
checks = []
na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, lv, note = registry.META[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"env VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=t, level=lv, level_note=note))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "check under construction")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup",
               hooks=dict(guard="--cfg kem_monitor", enable="RUSTFLAGS='--cfg kem_monitor' (the harness provides kem_monitor_declassify)", source_commits=hook),
               checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
