#!/usr/bin/env python3
"""Regenerates seeded/<id>/ from the table in tools/seeds_table.py (patches against /repo HEAD)."""
import sys, os, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds_table import SEEDS
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only:
        continue
    out = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    d = tempfile.mkdtemp(prefix="ffv-seed-")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d + "/w", "HEAD"])
        for f, old, new in s["edits"]:
            p = os.path.join(d, "w", "src", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d + "/w", "diff"], text=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("seed", s["id"])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", d + "/w"])
        shutil.rmtree(d, ignore_errors=True)
