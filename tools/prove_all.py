#!/usr/bin/env python3
"""Runs every contract once (no concrete search) and lists what is not discharged: prove_all.py [PROP...]
Development aid; not part of any check."""
import sys, os, json, shutil, subprocess, tempfile, time, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
W = os.path.join(ROOT, "pyvc", "worker.py")
props = sys.argv[1:] or ["C%02d" % i for i in range(1, 20)]
work = tempfile.mkdtemp(prefix="ffv-all-")
jobs = []
for p in props:
    n = int(subprocess.check_output([VT, W, p, "count"], text=True).strip() or 0)
    jobs += [(p, i) for i in range(n)]


def run(j):
    out = os.path.join(work, "%s-%d.json" % j)
    subprocess.run([VT, W, j[0], str(j[1]), out, "900"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return j, json.load(open(out)) if os.path.exists(out) else None


seen, bad, slow = set(), 0, []
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
    for j, r in ex.map(run, jobs):
        if r is None:
            print("FAILED", j)
            bad += 1
            continue
        slow.append((r["seconds"], j[0], r["contract"]))
        for o in r["obligations"]:
            if o["status"] != "discharged":
                bad += 1
                print(j[0], o["status"], o["name"], str(o.get("why"))[:200], flush=True)
shutil.rmtree(work, ignore_errors=True)
print("%d contracts, %d not discharged; slowest: %s" % (len(jobs), bad, [(round(a), b, c) for a, b, c in sorted(slow, reverse=True)[:8]]))
