#!/usr/bin/env python3
"""Check of one property:  check.py PROP quick|thorough

1. proof: every contract registered for the property is verified against the ASTs of
   /repo's current source (pyvc), one process per contract;
2. the same contract is evaluated on the freshly built real code (concrete/) - this is
   the counterexample search / replay, and the bounded stand-in for anything the
   verifier cannot reach.
Exit 0: held; exit 1 + VIOLATION line: broken.
"""
import sys, os, json, time, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
VENV_PY = "/opt/venv/bin/python"


def worker(prop, idx, out, budget, end):
    budget = int(min(budget, max(5, end - time.time())))
    cmd = [VT, os.path.join(HERE, "pyvc", "worker.py"), prop, str(idx), out, str(budget)]
    try:
        subprocess.run(cmd, timeout=budget + 60, env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        pass
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        return {"contract": "#%d" % idx, "functions": [], "obligations": [{"name": "contract %d/finished" % idx, "status": "undecided", "paths": 0, "why": "time limit"}],
                "paths": 0, "solver": {}, "seconds": budget, "inlined": [], "assumed": [], "contracts_used": []}


def search(prop, seed, secs, root, out):
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    work = tempfile.mkdtemp(prefix="ffv-run-")
    env["TMPDIR"] = work
    try:
        r = subprocess.run([VENV_PY, os.path.join(HERE, "concrete", "run.py"), "search", prop, str(seed), str(secs), "1000000", out], env=env, cwd=work,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs * 3 + 120)
        return json.load(open(out))
    except subprocess.TimeoutExpired:
        return {"evaluations": 0, "distinct": 0, "samples": [], "failure": None, "error": "search did not finish"}
    except (OSError, ValueError):
        return {"evaluations": 0, "distinct": 0, "samples": [], "failure": None, "error": r.stdout[-1500:], "rc": r.returncode}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    quick = tier != "thorough"
    secs = 20 if quick else 300
    nproc = 3 if quick else 6
    budget = 450 if quick else 2400
    end = t0 + (600 if quick else 5400)
    import build
    import report
    work = tempfile.mkdtemp(prefix="ffv-chk-")
    try:
        n = int(subprocess.check_output([VT, os.path.join(HERE, "pyvc", "worker.py"), prop, "count"], text=True).strip() or 0)
        with cf.ThreadPoolExecutor(8) as pool, cf.ThreadPoolExecutor(5) as ppool:
            proofs = [ppool.submit(worker, prop, i, os.path.join(work, "p%d.json" % i), budget, end) for i in range(n)]
            extra = [ppool.submit(report.extra_obligations, prop, work)]
            try:
                root = build.build(os.path.join(work, "b"))
            except build.BuildError as e:
                print("the tree does not build:\n%s" % e)
                return 2
            searches = [pool.submit(search, prop, seed * 1000 + i, secs, root, os.path.join(work, "s%d.json" % i)) for i in range(nproc)]
            pres = [p.result() for p in proofs]
            for x in extra:
                pres += x.result()
            sres = [s.result() for s in searches]
            fails = [s["failure"] for s in sres if s.get("failure")]
            refuted = [o for r in pres for o in r["obligations"] if o["status"] == "refuted"]
            if refuted and not fails:
                # counterexample hunt for the refuted obligation
                hunt = 60 if quick else 300
                more = [pool.submit(search, prop, seed * 1000 + 500 + i, hunt, root, os.path.join(work, "h%d.json" % i)) for i in range(8)]
                hres = [m.result() for m in more]
                sres += hres
                fails = [s["failure"] for s in hres if s.get("failure")]
        return report.finish(prop, tier, seed, pres, sres, fails, time.time() - t0, HERE)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
