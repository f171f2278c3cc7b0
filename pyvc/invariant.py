"""Loops verified against a stated invariant (classical rule).

rule = LoopInvariant(cx, name, spec); installed in eng.loop_rules.  A loop reached on a
contract path is split into two paths:
  maintain: havoc the modified state, assume Inv(k), execute the body, prove Inv(k+1);
  after:    prove Inv(0) on entry, havoc, assume Inv(n), continue.
Which state the body modifies is discovered by executing it and re-checked on the
maintain path: anything modified outside the havocked set is rejected.
"""
import z3
from terms import *
from values import *
import interp
from prove import Why


def fq(m):
    return m.fn.qual if m.fn is not None else "?"


class Restart(Exception):
    pass


class LoopInvariant:
    """spec methods:
       bind(eng, mods, level) -> roles or None    (mods: Mut -> contents the body can leave, found by a dry run)
       havoc(eng, roles) -> ghosts                (sets the contents of the role Muts to arbitrary ones)
       entry(eng, roles)  -> ghosts               (ghosts describing the contents at loop entry)
       step(eng, roles, g0) -> ghosts             (ghosts for the contents after the body)
       inv(eng, roles, ghosts, pos) -> [(name, formula)]
       after(eng, roles, ghosts)                  (lemmas usable after the loop)"""

    def __init__(self, cx, name, spec, loops=None):
        self.cx, self.name, self.spec = cx, name, spec
        self.stack = []            # positions of the enclosing loops (k, n)
        self.dry = False
        self.roles = None
        self.poison = cx.persist.setdefault(name, {})           # loop depth -> frame keys assigned by the body

    def __call__(self, eng, n, body):
        if self.dry:
            k = eng.T.fresh("k")
            eng.assume(z3.And(k >= 0, k < n))
            body(k)
            return None
        if len(eng.exs) != 1:
            return NotImplemented
        roles = self.roles
        if roles is None:
            roles = self.bind(eng, n, body)
            if roles is None:
                return NotImplemented
        depth = len(self.stack)
        muts = {m for m in roles.values() if m is not None}
        top = roles is not self.roles
        pois = self.poison.setdefault(depth, set())
        # ---- entry
        g0 = self.spec.step(eng, roles, self.ghosts) if not top else self.spec.entry(eng, roles)
        if g0 is None:
            return NotImplemented
        pre = {m: m.c for m in eng.heap}
        k = eng.T.fresh("k")
        if eng.nd():                          # maintain
            self.havoc_frames(eng, pois)
            gh = self.spec.havoc(eng, roles)
            eng.assume(z3.And(k >= 0, k < n))
            for nm, f in self.spec.inv(eng, roles, gh, self.stack + [(k, n)]):
                eng.assume(f)
            start = {m: m.c for m in eng.heap}
            self.roles, self.ghosts = roles, gh
            self.stack.append((k, n))
            try:
                body(k)
            except ContinueX:
                pass
            finally:
                self.stack.pop()
                self.roles = None if top else roles
            for m in list(start):
                if m.c is start[m] or m in muts:
                    continue
                if isinstance(m, Frame):
                    for key in eng.diff(m, start[m], m.c):
                        if (fq(m), key) not in pois:
                            pois.add((fq(m), key))
                            self.cx.restart = True
                else:
                    raise Unsupported("the loop modifies a %s that the invariant does not cover" % type(m).__name__)
            if self.cx.restart:
                raise Restart()
            g1 = self.spec.step(eng, roles, self.ghosts)
            for nm, f in self.spec.inv(eng, roles, g1, self.stack + [(k + 1, n)]):
                self.cx.record("%s: invariant maintained (%s, loop %d)" % (self.name, nm, depth + 1), eng.goal(f, nm))
            raise Infeasible()
        # ---- after
        for nm, f in self.spec.inv(eng, roles, g0, self.stack + [(iv(0), n)]):
            self.cx.record("%s: invariant holds initially (%s, loop %d)" % (self.name, nm, depth + 1), eng.goal(f, nm))
        self.havoc_frames(eng, pois)
        gh = self.spec.havoc(eng, roles)
        nn = z3.If(n > 0, n, iv(0))
        for nm, f in self.spec.inv(eng, roles, gh, self.stack + [(nn, n)]):
            eng.assume(f)
        self.ghosts = gh
        if top:
            self.spec.after(eng, roles, gh)
        return None

    def havoc_frames(self, eng, pois):
        for m in eng.heap:
            if isinstance(m, Frame):
                ks = [key for (u, key) in pois if u == fq(m)]
                if ks:
                    nc = dict(m.c)
                    for key in ks:
                        nc[key] = Poison("loop-carried variable %s" % key)
                    m.c = nc

    def bind(self, eng, n, body):
        """dry run: what does the body modify?"""
        snap = eng.snapshot()
        pc0, cnt = len(eng.pc), eng.T.cnt
        k = eng.T.fresh("k")
        eng.assume(z3.And(k >= 0, k < n))
        self.dry = True
        try:
            paths = eng.run_paths(lambda: body(k), cnt)
        finally:
            self.dry = False
            eng.restore(snap)
            del eng.pc[pc0:]
            eng.T.cnt = cnt
        mods = {}
        for p in paths:
            for m, c in p.state.items():
                if not isinstance(m, Frame):
                    mods.setdefault(m, []).append(c)
        return self.spec.bind(eng, mods)


def dict_fun(eng, dc, key_sort):
    """(has(s), val(s)) of a dict content = functional base + inserted pairs"""
    base = dc.base

    def has(s):
        r = base.has(s) if base is not None else z3.BoolVal(False)
        for it in dc.items:
            r = z3.Or(eng.key_t(it.v[0]) == s, r)
        return r

    def val(s):
        r = eng.int_t(base.val(s)) if base is not None else iv(0)
        for it in dc.items:
            r = z3.If(eng.key_t(it.v[0]) == s, eng.int_t(it.v[1]), r)
        return r
    if not all(isinstance(it, E) for it in dc.items):
        raise Unsupported("dict contents")
    return has, val
