"""Contract layer: symbolic inputs, spec expressions, obligations.

A contract is a Python function c(cx) registered for a property; it builds
arbitrary inputs satisfying the precondition, calls the real function (its AST)
and states the postcondition.  It is run along every path of the code; every
`ensure*` reached on a path is a proof obligation generated from the current
source.
"""
import ast, os, time, traceback
import z3
from terms import *
from values import *
import interp, interp2, builtins_, prove, invariant
from interp import Engine, Ex
from prove import Why, Scope

REG = {}      # property -> list of Contract


class Contract:
    def __init__(self, prop, name, fn, functions, doc, max_paths):
        self.prop, self.name, self.fn, self.functions, self.doc, self.max_paths = prop, name, fn, functions, doc, max_paths


def contract(props, name, functions=(), max_paths=400):
    def d(fn):
        for p in ([props] if isinstance(props, str) else props):
            REG.setdefault(p, []).append(Contract(p, name, fn, tuple(functions), (fn.__doc__ or "").strip(), max_paths))
        return fn
    return d


class Skip(Exception):
    pass


class Cx:
    def __init__(self, eng, con):
        self.e, self.con = eng, con
        self.obs = {}          # obligation name -> dict
        self.reached = set()
        self.specf = None
        self.persist = {}      # survives re-exploration

    # ---- symbolic inputs
    def str(self, hint="s"):
        return self.e.T.fresh(hint, Str)

    def int(self, hint="n", lo=None, hi=None):
        t = self.e.T.fresh(hint)
        if lo is not None:
            self.e.assume(t >= lo)
        if hi is not None:
            self.e.assume(t <= hi)
        return t

    def bool(self, hint="b"):
        return self.e.T.fresh(hint, B)

    def list(self, n, f):
        """list with n elements, element i given by f(i)"""
        k = self.e.T.fresh("k")
        return Lst(self.e, (For(k, n, [E(f(k))]),))

    def func(self, hint, *sorts):
        self.e.T.cnt += 1
        return z3.Function("%s!%d" % (hint, self.e.T.cnt), *sorts)

    def choose(self, *alts):
        """one of several alternatives (all explored)"""
        for a in alts[:-1]:
            if self.e.nd():
                return a
        return alts[-1]

    def requires(self, f):
        self.e.assume(f)

    # ---- calling the code
    def fn(self, qual):
        return self.e.fn(qual)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.e.fn(f)
        return self.e.call(f, list(args), kw)

    def outcome(self, f, *args, **kw):
        try:
            return ("return", self.call(f, *args, **kw))
        except PyRaise as x:
            return ("raise", x.exc)

    def method(self, o, name, *args, **kw):
        return self.e.call(self.e.getattr(o, name), list(args), kw)

    # ---- frame conditions
    def heap(self):
        """all objects there are now, with their contents"""
        return self.e.snapshot()

    def frame(self, name, snap, skip=()):
        """every object there was (other than open files) holds what it held"""
        import arrays, files
        for m, c in snap:
            if m.c is c or m in skip or isinstance(m, (Frame, files.FileW, files.FileR)):
                continue
            if isinstance(m, arrays.Buf):
                self.record(name, m.c.prove_eq(self.e, c, name))
            else:
                d = [k for k in self.e.diff(m, c, m.c) if not (isinstance(m, Obj) and k not in c)]     # a new attribute changes no stored value
                if d:
                    self.record(name, Why("refuted", "%r changed" % (m,)))
        self.record(name, None)

    # ---- spec expressions
    def spec(self, text, **env):
        """evaluates a Python expression (the specification) over symbolic values"""
        f = Frame(self.e, dict(env))
        m = Mod("spec", {})
        fn = Fn(ast.parse("def spec(): pass").body[0], m, "spec", "spec")
        f.fn, f.ctypes, f.glob, f.outer, f.node = fn, {}, m, None, None
        return self.e.ev(ast.parse(text.strip(), mode="eval").body, f)

    # ---- obligations
    def record(self, name, why, text=""):
        o = self.obs.setdefault(name, {"paths": 0, "failed": [], "text": text})
        o["paths"] += 1
        if why is not None:
            o["failed"].append(why)

    def ensure(self, name, f):
        self.record(name, self.e.goal(self.e.truth_t(f), name))

    def ensure_eq(self, name, a, b):
        self.record(name, self.e.prove_val(a, b, name))

    def fail(self, name, msg, kind="refuted"):
        """this point must be unreachable"""
        self.record(name, self.unreachable(msg, kind))

    def unreachable(self, msg, kind="refuted"):
        """None if the current path is infeasible"""
        r = self.e.S.check(self.e.facts(), timeout=15000)
        if r == "incomplete":
            r = self.e.S.second_opinion(self.e.facts(), r)
        return None if r == "unsat" else Why(kind if r in ("sat", "incomplete") else "undecided", msg)

    def reach(self, name):
        """vacuity guard: some path must get here with a satisfiable condition"""
        if name not in self.reached and self.e.feasible():
            self.reached.add(name)

    def case(self, f):
        """case split in the contract"""
        return self.e.branch(f)


def run_contract(con, timeout_ms=8000, deadline=None):
    """-> dict(name, status, obligations, ...)"""
    t0 = time.time()
    eng = Engine(timeout_ms)
    builtins_.ASSUMED.clear()
    cx = Cx(eng, con)
    res = {"contract": con.name, "functions": list(con.functions), "doc": con.doc}
    undecided = None

    late, stuck = [], []

    def one():
        cx.specf = None
        if deadline and time.time() > deadline:
            raise Unsupported("time budget of the proof exhausted")
        cx.restart = False
        eng.lost = None
        eng.summaries.clear()
        eng.toml_reg = []
        eng.argv = eng.stdin = eng.stdout = None
        eng.loop_exits = []
        eng.perms, eng.set_reg = [], []
        eng.loop_rules.clear()
        try:
            con.fn(cx)
            if os.environ.get("FFV_VACUITY"):
                cx.ensure("VACUITY", z3.BoolVal(False))
        except Unsupported as u:
            # this path stays undecided; the others may still refute an obligation
            late.append(str(u))
            stuck.append(1)
            if len(stuck) > 12 or deadline and time.time() > deadline:
                raise
            return
        except PyRaise as x:
            late.append(eng.lost)
            cx.record("no unexpected exception", cx.unreachable("raises %r" % (x.exc,)))
            return
        late.append(eng.lost)
        cx.record("no unexpected exception", None)
    try:
        while True:
            try:
                eng.explore(one, con.max_paths)
                break
            except invariant.Restart:
                cx.obs.clear()
                del late[:], stuck[:]
    except Unsupported as u:
        undecided = "outside the verifier's reach: %s" % u
    except (Skip,):
        undecided = "skipped"
    except FileNotFoundError as x:
        undecided = "source not found: %s" % x
    except (SyntaxError,) as x:
        undecided = "source does not parse: %s" % x
    except RecursionError:
        undecided = "outside the verifier's reach: recursion"
    except z3.Z3Exception as x:
        undecided = "verifier error: %s" % x
        res["trace"] = traceback.format_exc()[-1500:]
    except Exception as x:       # an internal error of the verifier never counts as a verdict
        undecided = "verifier error: %s: %s" % (type(x).__name__, x)
        res["trace"] = traceback.format_exc()[-1500:]
    if any(late) and not undecided:
        undecided = "outside the verifier's reach: " + [x for x in late if x][0]
    obs = []
    for name, o in cx.obs.items():
        if o["failed"]:
            ref = [w for w in o["failed"] if w.kind == "refuted"]
            st = "refuted" if ref else "undecided"
            w = (ref or o["failed"])[0]
            obs.append({"name": con.name + "/" + name, "status": st, "paths": o["paths"], "why": w.msg, "model": w.model})
        else:
            obs.append({"name": con.name + "/" + name, "status": "undecided" if undecided else "discharged", "paths": o["paths"]})
    if undecided:
        obs.append({"name": con.name + "/all paths covered", "status": "undecided", "paths": eng.paths_explored, "why": undecided})
    if not obs:
        obs.append({"name": con.name + "/non-vacuity", "status": "undecided", "paths": 0, "why": "no obligation was generated"})
    res.update(obligations=obs, paths=eng.paths_explored, solver=eng.S.stats, seconds=time.time() - t0, inlined=sorted(eng.inlined),
               contracts_used=sorted(eng.used_contracts), assumed=sorted(builtins_.ASSUMED), models=sorted(eng.models))
    return res
