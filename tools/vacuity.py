#!/usr/bin/env python3
"""Vacuity check: with the obligation `false` added at the end of every contract, every contract must fail.
vacuity.py [PROP...].  Development aid; not part of any check."""
import sys, os, json, shutil, subprocess, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
W = os.path.join(ROOT, "pyvc", "worker.py")
props = sys.argv[1:] or ["C%02d" % i for i in range(1, 20)]
work = tempfile.mkdtemp(prefix="ffv-vac-")
env = dict(os.environ, FFV_VACUITY="1")
jobs = []
for p in props:
    n = int(subprocess.check_output([VT, W, p, "count"], text=True).strip() or 0)
    jobs += [(p, i) for i in range(n)]


def run(j):
    out = os.path.join(work, "%s-%d.json" % j)
    subprocess.run([VT, W, j[0], str(j[1]), out, "900"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    return j, json.load(open(out)) if os.path.exists(out) else None


bad = n = 0
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
    for j, r in ex.map(run, jobs):
        n += 1
        st = [o for o in (r or {"obligations": []})["obligations"] if o["name"].endswith("/VACUITY")]
        if not st or st[0]["status"] == "discharged":
            bad += 1
            print("VACUOUS", j, r and r["contract"], st[:1], flush=True)
shutil.rmtree(work, ignore_errors=True)
print("%d contracts, %d vacuous" % (n, bad))
