#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from what the harness registers: mkmanifest.py VH-BINARY"""
import json, os, subprocess, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
l = json.loads(subprocess.check_output([sys.argv[1], "list"]))
props = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
checks = []
for e in l:
    assert e["ID"] in props and e["Tech"], e
    checks.append({"property": e["ID"], "quick_cmd": "./check.sh " + e["ID"], "thorough_cmd": "./check.sh " + e["ID"],
        "technique": "runtime monitoring: " + e["Tech"], "level": "exploration",
        "level_note": "Holds on everything executed, not proved. Executed: " + e["Rule"]})
missing = [p for p in props if p not in [e["ID"] for e in l]]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check yet"} for p in missing]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "missing:", missing)
