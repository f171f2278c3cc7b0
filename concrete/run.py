"""Counterexample search / replay on the real (freshly built) code.

usage: run.py search PROP SEED SECONDS MAXCASES OUT.json   (PYTHONPATH = scratch build)
       run.py replay FILE
"""
import sys, os, json, time, random, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from common import Fail


def run_case(prop, case):
    try:
        props.REG[prop].check(json.loads(json.dumps(case)))
        return None
    except Fail as f:
        return str(f)
    except Exception as e:  # the real code raised where the contract allows no exception
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[-4:])
        return "unexpected %s: %s [%s]" % (type(e).__name__, e, where)


def main():
    if sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        case = rec.get("case")
        if case is None:
            print("replay file carries no input")
            return 2
        msg = run_case(rec["property"], case)
        print("REPLAY", rec["property"], "VIOLATED: " + msg if msg else "ok")
        return 1 if msg else 0
    prop, seed, secs, maxn, out = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
    t0 = time.time()
    n, seen, samples, fail = 0, set(), [], None
    while n < maxn and time.time() - t0 < secs:
        r = random.Random("%s-%d-%d" % (prop, seed, n))
        case = props.REG[prop].gen(r)
        n += 1
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:8]
        seen.add(h)
        msg = run_case(prop, case)
        if msg:
            # prefer a small failing case
            best, bmsg = case, msg
            tries = 0
            t1 = time.time()
            while tries < 400 and time.time() - t1 < 8:
                tries += 1
                r = random.Random("%s-%d-shrink-%d" % (prop, seed, tries))
                c2 = props.REG[prop].gen(r)
                if len(json.dumps(c2)) < len(json.dumps(best)):
                    m2 = run_case(prop, c2)
                    if m2 and (("unexpected" in m2) == ("unexpected" in msg)):
                        best, bmsg = c2, m2
            fail = {"property": prop, "case": best, "message": bmsg, "seed": seed, "case_number": n}
            break
        if len(samples) < 2:
            samples.append(case)
    json.dump({"evaluations": n, "distinct": len(seen), "samples": samples, "failure": fail, "seconds": time.time() - t0}, open(out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
