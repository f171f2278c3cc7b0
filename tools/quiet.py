#!/usr/bin/env python3
"""Behaviour-preserving edits (refactors.py) must not refute an obligation.  quiet.py [PATTERN]"""
import sys, os, json, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from refactors import REFACTORS
import importlib.util
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
src = open(os.path.join(HERE, "selftest.py")).read()
CODE = src[src.index("CODE = r'''") + 11:src.index("''' %")] % ((os.path.dirname(HERE),) * 3)


def run(m):
    name, props, edits = m
    d = tempfile.mkdtemp(prefix="ffv-ref-")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
        for file, old, new in edits:
            p = d + "/src/finalfusion/" + file
            s = open(p).read()
            if s.count(old) < 1:
                return name, "TEXT NOT FOUND", old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        res = []
        for prop in props.split():
            r = subprocess.run([VT, "-c", CODE, prop, ""], env=dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            try:
                obs = json.loads(r.stdout)
            except ValueError:
                return name, "ERROR", r.stderr[-300:]
            bad = [o for o in obs if o["status"] == "refuted"]
            und = [o for o in obs if o["status"] == "undecided"]
            res.append((prop, len(obs), bad, und))
        bad = [(p, o["name"], str(o.get("why"))[:150]) for p, n, b, u in res for o in b]
        und = [(p, o["name"], str(o.get("why"))[:150]) for p, n, b, u in res for o in u if "all paths covered" in o["name"]] or [(p, o["name"], str(o.get("why"))[:150]) for p, n, b, u in res for o in u]
        return name, "ALARM" if bad else "undecided" if und else "quiet", (bad or und or [""])[:3]
    finally:
        shutil.rmtree(d, ignore_errors=True)


pat = sys.argv[1] if len(sys.argv) > 1 else ""
with cf.ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
    for name, st, why in ex.map(run, [m for m in REFACTORS if pat in m[0]]):
        print("%-10s %-24s %s" % (st, name, why), flush=True)
