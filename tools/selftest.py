#!/usr/bin/env python3
"""Validation of the verifier: every broken body below must lose an obligation, the
unchanged source must not.   selftest.py [PATTERN]
Not part of any check; run by hand after changes of the engine or the contracts.
Each mutant: (name, property, contract-name part, file, old text, new text)."""
import sys, os, json, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from mutants import MUTANTS
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
CODE = r'''
import sys, json, time, importlib, glob, os, threading
sys.path[:0] = [%r + "/pyvc", %r + "/contracts"]
sys.setrecursionlimit(20000); threading.stack_size(512 * 1024 * 1024)
def main():
    import contract
    for f in sorted(glob.glob(%r + "/contracts/*.py")):
        importlib.import_module(os.path.basename(f)[:-3])
    out = []
    for c in contract.REG.get(sys.argv[1], []):
        if sys.argv[2] in c.name:
            out += contract.run_contract(c, deadline=time.time() + 200)["obligations"]
    print(json.dumps(out))
t = threading.Thread(target=main); t.start(); t.join()
''' % (ROOT, ROOT, ROOT)


def run(m):
    name, prop, part, file, old, new = m
    d = tempfile.mkdtemp(prefix="ffv-mut-")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
        p = d + "/src/finalfusion/" + file
        s = open(p).read()
        if s.count(old) < 1:
            return name, "TEXT NOT FOUND", ""
        open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run([VT, "-c", CODE, prop, part], env=dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            obs = json.loads(r.stdout)
        except ValueError:
            return name, "ERROR", r.stderr[-300:]
        bad = [o for o in obs if o["status"] == "refuted"]
        und = [o for o in obs if o["status"] == "undecided"]
        if bad:
            return name, "caught", bad[0]["name"]
        return name, ("undecided" if und else "MISSED"), (und[0]["name"] + ": " + str(und[0].get("why"))[:200]) if und else "%d obligations" % len(obs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


pat = sys.argv[1] if len(sys.argv) > 1 else ""
from mutants2 import MUTANTS2
ms = MUTANTS2 if pat == "@2" else [m for m in MUTANTS if pat in m[0] or pat == m[1]]
rc = 0
with cf.ThreadPoolExecutor(7) as ex:
    for name, st, why in ex.map(run, ms):
        print("%-10s %-40s %s" % (st, name, why), flush=True)
        rc |= st != "caught"
sys.exit(rc)
