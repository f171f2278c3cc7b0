"""The lemmas pyvc instantiates (induction, counting, UTF-8), checked by Lean on every run.

They are mathematics, independent of /repo: a failure here means the
framework is broken, never that the code is, so it is reported as undecided."""
import os, re, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, "lemmas", "Lemmas.lean")


def run(prop, work):
    t0 = time.time()
    with open(FILE) as f:
        text = f.read()
    code = re.sub(r"/-.*?-/", "", text, flags=re.S)
    names = re.findall(r"^theorem ([^ ]+)", code, flags=re.M)
    why = ""
    if re.search(r"\b(sorry|axiom|native_decide|admit|unsafe|implemented_by)\b", code):
        why = "the lemma file contains an unproved statement"
    else:
        try:
            r = subprocess.run(["lean", FILE], capture_output=True, text=True, timeout=300, cwd=work)
            if r.returncode or "error" in r.stdout or "sorry" in r.stdout:
                why = "lean: " + (r.stdout + r.stderr)[-300:]
        except (subprocess.TimeoutExpired, OSError) as x:
            why = "lean: %s" % x
    ob = {"name": "lemmas/Lemmas.lean: %d theorems (counting, sums, strings and UTF-8)" % len(names),
          "status": "undecided" if why else "discharged", "paths": len(names), "why": why}
    return [{"contract": "lemmas", "functions": [], "doc": "Lean 4", "obligations": [ob], "paths": len(names),
             "solver": {"lean_seconds": round(time.time() - t0, 2)}, "seconds": time.time() - t0, "inlined": [],
             "assumed": ["Lean 4 kernel and Mathlib (lemmas/Lemmas.lean); the correspondence between each theorem and the SMT instance pyvc generates"]}]


if __name__ == "__main__":
    import json
    print(json.dumps(run("C07", "/tmp"), indent=1))
