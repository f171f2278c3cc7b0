"""Combines proof results and the runs on the real code into a verdict, evidence and replay files."""
import os, json, time

GENERIC_TRUST = [
    "CPython 3.12 / Cython 3 semantics as implemented by pyvc (validated by tools/selftest.py: broken bodies must fail, spec expressions are cross-checked on CPython)",
    "z3 4.x (python3-vt) and cvc5 1.1.2 as the SMT back ends",
    "float32/float64 arithmetic treated as real arithmetic (numeric agreement within tolerance is checked on the real code only)",
]


def extra_obligations(prop, work):
    import cbmc_fnv
    import lean_lemmas
    return cbmc_fnv.run(prop, work) + lean_lemmas.run(prop, work)


def finish(prop, tier, seed, pres, sres, fails, wall, here):
    obs = [o for r in pres for o in r["obligations"]]
    disch = [o for o in obs if o["status"] == "discharged"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    undec = [o for o in obs if o["status"] == "undecided"]
    ev = sum(s["evaluations"] for s in sres)
    dist = sum(s["distinct"] for s in sres)
    samples = [x for s in sres for x in s.get("samples", [])][:2]
    assumed = sorted({a for r in pres for a in r.get("assumed", [])})
    models = sorted({a for r in pres for a in r.get("models", [])})
    fns = sorted({f for r in pres for f in r["functions"]})
    inl = sorted({f for r in pres for f in r.get("inlined", [])})
    stats = {}
    for r in pres:
        for k, v in (r.get("solver") or {}).items():
            if isinstance(v, (int, float)):
                stats[k] = round(stats.get(k, 0) + v, 2)
    level = "proof" if obs and not undec and not refuted else "other"
    vio = 1 if fails or refuted else 0
    bounded = []
    for o in undec:
        bounded.append("%s: undecided (%s) - bounded stand-in: %d evaluations of the contract on the real code" % (o["name"], o.get("why", ""), ev))
    cov = {
        "obligations": len(obs), "discharged": len(disch), "undecided": len(undec), "refuted": len(refuted),
        "checker_cmd": "python3 check.py %s %s" % (prop, tier),
        "trusted_base": GENERIC_TRUST + assumed + (["assumed contracts on builtins and library functions, as modelled in pyvc: " + ", ".join(models)] if models else []),
        "functions_under_contract": fns,
        "functions_whose_bodies_were_verified": inl,
        "paths": sum(r.get("paths", 0) for r in pres),
        "solver": stats,
        "obligation_list": [{"name": o["name"], "status": o["status"], "paths": o["paths"]} for o in obs],
        "bounded": bounded,
        "evaluations": ev, "distinct_nontrivial": dist,
        "rule": "contract evaluated on the freshly built package with generated inputs (concrete/props.py, %s); distinct = distinct JSON-encoded cases" % prop,
        "samples": samples,
        "explanation": "contract-based deductive verification of the current source (%d of %d obligations discharged), plus the contract evaluated on the real code" % (len(disch), len(obs)),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": level, "coverage": cov,
                   "assumptions": assumed, "wall_s": round(wall, 2), "violations": vio}, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d refuted; %d functions under contract; solver %ss; %d evaluations on the real code; %.1fs" % (
        prop, len(obs), len(disch), len(undec), len(refuted), len(fns), stats.get("seconds", 0), ev, wall))
    for o in undec:
        print("  bounded: %s (%s)" % (o["name"], str(o.get("why", ""))[:300]))
    for o in refuted:
        print("  FAILED OBLIGATION: %s: %s" % (o["name"], str(o.get("why", ""))[:600]))
    errs = [s["error"] for s in sres if s.get("error")]
    if errs and not fails:
        print("  search error: %s" % errs[0])
    if not vio:
        if errs and ev == 0:
            return 2
        if not obs and ev == 0:
            print("nothing was checked")
            return 2
        return 0
    os.makedirs(os.path.join(here, "replays"), exist_ok=True)
    path = os.path.join(here, "replays", "%s-%d.json" % (prop, seed))
    rec = {"property": prop, "failed_obligations": refuted}
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f["case"])))
        rec.update(fails[0])
        print("  failing input: %s" % fails[0]["message"][:600])
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(path, here), "" if fails else " no-failing-input-found"))
    return 1
