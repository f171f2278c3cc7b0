#!/usr/bin/env python3
"""Writes MANIFEST.json (level per property: 'proof' where every obligation is discharged on the current tree)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))
from levels import LEVELS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    lvl, note = LEVELS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": "contract-based deductive verification of the real source (own VC generator pyvc + z3/cvc5), contract replayed on the built code", "level": lvl, "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. Checks parse /repo's current source, rebuild the package in a scratch directory and never write to /repo."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
