#!/usr/bin/env python3
"""Writes MANIFEST.json from the table in units.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "run"))
import units
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    checks.append(units.manifest_entry(pid))
m = {
    "version": 1,
    "setup_cmd": "sh setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": units.NOTES,
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
