"""Symbolic interpreter / VC generator core.

Executes the real ASTs (see frontend.py).  Branches on symbolic conditions fork
paths (re-execution with decision prefixes); loops over symbolic ranges are
replaced by a summary whose inductive step is the body executed once from an
arbitrary iteration (see `summarise`); calls are inlined unless a contract is
registered for the callee, in which case only the contract is used.
"""
import ast, re, sys, time
import z3
from terms import *
from values import *
import frontend

sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)

CT = {"int8_t": (8, True), "uint8_t": (8, False), "int32_t": (32, True), "uint32_t": (32, False),
      "int16_t": (16, True), "uint16_t": (16, False),
      "int64_t": (64, True), "uint64_t": (64, False), "Py_ssize_t": (64, True), "size_t": (64, False),
      "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
      "long long": (64, True), "unsigned long long": (64, False), "char": (8, True), "unsigned char": (8, False), "signed char": (8, True),
      "short": (16, True), "unsigned short": (16, False), "signed int": (32, True), "signed long": (64, True),
      "Fnv32_t": (32, False), "Fnv64_t": (64, False), "bint": (32, True), "ssize_t": (64, True), "unsigned": (32, False)}
NUMERIC = re.compile(r"\b(unsigned|signed|short|long|int|char|float|double|Py_UCS4|Py_UNICODE|Py_hash_t)\b|_t$")
_BYW = {(8, True): "int8_t", (8, False): "uint8_t", (16, True): "int16_t", (16, False): "uint16_t", (32, True): "int", (32, False): "uint32_t", (64, True): "int64_t", (64, False): "uint64_t"}


def _birth(name):
    i = name.rfind("!")
    if i < 0:
        return -1
    try:
        return int(name[i + 1:])
    except ValueError:
        return -1


def has_ite(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or z3.is_app_of(x, z3.Z3_OP_ITE) or x.sort() == B and not z3.is_const(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return True
        st.extend(x.children())
    return False


class Ex:
    """explorer frame: decision prefix of the current (sub-)path"""
    __slots__ = ("prefix", "pos", "trace", "work", "born", "depth")

    def __init__(self, prefix, work, born):
        self.prefix, self.pos, self.trace, self.work, self.born = prefix, 0, [], work, born


class MakeGeneric(Exception):
    """raised by an object that must be generic in the loop being summarised"""

    def __init__(self, m):
        self.m = m


class Path:
    __slots__ = ("conds", "facts", "kind", "val", "state", "trace")


class Engine:
    def __init__(self, timeout_ms=8000):
        self.loop_gen = []
        self.T = Terms()
        self.S = Solver(self.T, timeout_ms)
        self.mods = {}
        self.modast = {}
        self.heap = []
        self.uid = 0
        self.pc = []          # (formula, is_fact)
        self.exs = []
        self.sec_failed = 0      # failed attempts of the second back end
        self.summaries = {}   # qualname -> callable(eng, args, kw) (callee contracts)
        self.inlined = set()  # functions whose bodies were executed
        self.used_contracts = set()
        self.models = set()
        self.depth = 0
        self.obligations = []  # filled by the contract layer
        self.hooks = {}        # loop hooks: name -> f(engine, info)
        self.loop_exits = []   # iterations at which loops were left, on this path
        self.loop_rules = []   # extra summarisation rules (tried first)
        self.spec_mode = 0
        self.paths_explored = 0
        import builtins_, files, arrays, extlibs
        self.B = builtins_.install(self)
        files.install(self)
        arrays.install(self)
        extlibs.install(self)
        import textio
        textio.install(self)
        import cli
        cli.install(self)
        import order
        order.install(self)

    # ------------------------------------------------------------ facts
    def facts(self):
        return [f for f, _ in self.pc]

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_false(f):
            raise Infeasible()
        if not z3.is_true(f):
            self.pc.append((f, True))

    def feasible(self, extra=()):
        r = self.S.check(self.facts() + list(extra), timeout=3000)
        return r != "unsat"

    def entails(self, f, timeout=None):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return not self.feasible()
        for g, _ in self.pc:
            if g.eq(f):
                return True
        return self.S.check(self.facts() + [z3.Not(f)], timeout) == "unsat"

    # ------------------------------------------------------- exploration
    def explore(self, fn, max_paths=400):
        """runs fn() along every feasible path from scratch; yields (kind, value)."""
        work = [[]]
        out = 0
        while work:
            prefix = work.pop()
            self.T.reset_counter(1000)
            self.heap = []
            self.uid = 0
            self.pc = []
            self.depth = 0
            self.loop_gen = []
            self.spec_mode = 0
            ex = Ex(prefix, work, -2)
            self.exs = [ex]
            out += 1
            self.paths_explored += 1
            if out > max_paths:
                raise Unsupported("more than %d paths" % max_paths)
            try:
                fn()
            except Infeasible:
                continue

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if len(self.exs) > 1:
            neg = z3.simplify(z3.Not(cond))
            mb = max([_birth(c.decl().name()) for c in free_consts(cond)] or [-1])
            for lv in range(1, len(self.exs)):
                if mb <= self.exs[lv].born:
                    for c, isf in self.pc:         # decided before the loop?
                        if not isf and c.eq(cond):
                            return True
                        if not isf and c.eq(neg):
                            return False
                    raise Hoist(cond, lv)
        ex = self.exs[-1]
        if ex.pos < len(ex.prefix):
            d = ex.prefix[ex.pos]
        else:
            t = self.feasible([cond])
            f = self.feasible([z3.Not(cond)]) if t else True
            if not t and not self.feasible():
                raise Infeasible()
            if t and f:
                ex.work.append(ex.trace + [False])
                d = True
            else:
                d = ("forced", t)      # implied by the path condition
        ex.pos += 1
        ex.trace.append(d)
        if isinstance(d, tuple):
            d = d[1]
            if len(self.exs) == 1:
                self.pc.append((cond if d else z3.simplify(z3.Not(cond)), False))
            return d
        self.pc.append((cond if d else z3.simplify(z3.Not(cond)), False))
        return d

    def nd(self):
        """nondeterministic boolean (both values explored)"""
        ex = self.exs[-1]
        if ex.pos < len(ex.prefix):
            d = ex.prefix[ex.pos]
        else:
            ex.work.append(ex.trace + [False])
            d = True
        ex.pos += 1
        ex.trace.append(d)
        return d

    def snapshot(self):
        return [(m, m.c) for m in self.heap]

    def restore(self, snap):
        del self.heap[len(snap):]
        for m, c in snap:
            m.c = c

    # ------------------------------------------------------------ loops
    def iterate(self, items, fn):
        for it in items:
            if isinstance(it, E):
                fn(it.v)
            elif isinstance(it, IfI):
                if self.branch(it.cond):
                    self.iterate(it.a, fn)
                else:
                    self.iterate(it.b, fn)
            elif isinstance(it, For):
                self.summarise(it.n, lambda kk, it=it: self.iterate(self.subst_items(it.items, it.k, kk), fn))
            else:
                raise Unsupported("iteration over a list being built")

    def summarise(self, n, body):
        if isinstance(n, int):
            n = iv(n)
        n = z3.simplify(n)
        if z3.is_int_value(n):
            v = n.as_long()
            if v <= 40:
                for i in range(v):
                    try:
                        body(iv(i))
                    except ContinueX:
                        pass
                return
        if self.entails(n <= 0):
            return
        if self.entails(n == 1):
            try:
                body(iv(0))
            except ContinueX:
                pass
            return
        level = len(self.exs)
        snap = self.snapshot()
        npc = len(self.pc)
        cnt = self.T.cnt
        for _ in range(30):
            try:
                return self._summarise(n, body)
            except Hoist as h:
                del self.exs[level:]
                if h.level != level:
                    raise
                self.restore(snap)
                del self.pc[npc:]
                self.T.cnt = cnt
                self.branch(h.cond)
                h_last = h.cond
                npc = len(self.pc)
                if self.entails(n <= 0):
                    return
        raise Unsupported("loop keeps splitting on %s" % str(h_last)[:200])

    def run_paths(self, body, born):
        snap = self.snapshot()
        pc0 = len(self.pc)
        work = [[]]
        out = []
        cnt = self.T.cnt
        while work:
            prefix = work.pop()
            self.restore(snap)
            del self.pc[pc0:]
            ex = Ex(prefix, work, born)
            lv = len(self.exs)
            self.exs.append(ex)
            if len(out) > 200:
                raise Unsupported("too many paths in loop body")
            p = Path()
            p.val = None
            dep = self.depth
            try:
                try:
                    body()
                    p.kind = "next"
                except ContinueX:
                    p.kind = "next"
                except BreakX:
                    p.kind = "break"
                except ReturnX as r:
                    p.kind, p.val = "return", r.v
                except PyRaise as e:
                    p.kind, p.val = "raise", e.exc
                except Infeasible:
                    continue
            finally:
                del self.exs[lv:]
                self.depth = dep
            p.trace = ex.trace
            p.conds = [f for f, isf in self.pc[pc0:] if not isf]
            p.facts = [f for f, isf in self.pc[pc0:] if isf]
            p.state = {m: m.c for m, c0 in snap if m.c is not c0}
            out.append(p)
        self.restore(snap)
        del self.pc[pc0:]
        return out

    def _summarise(self, n, body):
        T = self.T
        for rule in self.loop_rules:
            r = rule(self, n, body)
            if r is not NotImplemented:
                return r
        snap = self.snapshot()
        pc0 = len(self.pc)
        gen = {}         # (mut, key) -> generic info ; key None for whole content
        dropped = set()
        for rnd in range(8):
            self.restore(snap)
            del self.pc[pc0:]
            born = T.cnt
            k = T.fresh("k")
            self.assume(z3.And(k >= 0, k < n))
            gi = {}
            for (m, key) in gen:
                gi[(m, key)] = self.make_generic(m, key, k, n)
            start = {m: m.c for m, _ in snap}
            self.loop_gen.append({m for m, _ in gi})
            try:
                paths = self.run_paths(lambda: body(k), born)
            except MakeGeneric as mg:
                if (mg.m, None) in gen or mg.m not in start:
                    raise
                gen[(mg.m, None)] = 1
                continue
            finally:
                self.loop_gen.pop()
            changed = set()
            for p in paths:
                if p.kind == "next" or p.kind == "break":
                    for m, c in p.state.items():
                        for key in self.diff(m, start[m], c):
                            changed.add((m, key))
            new = changed - set(gen)
            if new:
                for x in sorted(new, key=lambda x: (x[0].uid, str(x[1]))):
                    gen[x] = 1
                continue
            gone = {x for x in gen if x not in changed and not self.always_generic(x)}
            if gone and not (gone & dropped):
                dropped |= gone
                for x in gone:
                    del gen[x]
                continue
            break
        else:
            raise Unsupported("loop summary did not stabilise")
        return self.finish_loop(snap, pc0, n, k, born, gi, paths, body)

    def always_generic(self, x):
        return False

    def diff(self, m, c0, c1):
        """changed keys of a Mut"""
        if isinstance(m, (Frame, Obj)):
            out = []
            for key in set(c0) | set(c1):
                a, b = c0.get(key, MISSING), c1.get(key, MISSING)
                if a is not b and not self.same(a, b):
                    out.append(key)
            return out
        if c0 is c1:
            return []
        h = getattr(m, "diff", None)
        if h is not None:
            return h(c0, c1)
        if isinstance(m, Lst) and len(c0) == len(c1) and all(a is b for a, b in zip(c0, c1)):
            return []
        return [None]

    def same(self, a, b):
        if a is b:
            return True
        if is_t(a) and is_t(b):
            return a.eq(b)
        if isinstance(a, CV) and isinstance(b, CV):
            return a.ct == b.ct and self.same(a.t, b.t)
        if type(a) is type(b) and isinstance(a, (int, str, bytes, bool, float)):
            return a == b
        return False

    def same_items(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, E) and isinstance(y, E):
                if not (self.same(x.v, y.v) or isinstance(x.v, tuple) and isinstance(y.v, tuple) and len(x.v) == len(y.v) and all(self.same(p, q) for p, q in zip(x.v, y.v))):
                    return False
            else:
                return False
        return True

    def make_generic(self, m, key, k, n):
        T = self.T
        if isinstance(m, (Frame, Obj)):
            pre = m.c.get(key, MISSING)
            nc = dict(m.c)
            if pre is MISSING:
                g = MISSING
                nc.pop(key, None)
                m.c = nc
                return ("none", pre, None)
            s = None
            if isinstance(pre, bool) or (is_t(pre) and pre.sort() == B):
                s = T.fresh("c", B)
                v = s
            elif isinstance(pre, int) or (is_t(pre) and pre.sort() == I):
                s = T.fresh("c", I)
                v = s
            elif isinstance(pre, float) or (is_t(pre) and pre.sort() == R):
                s = T.fresh("c", R)
                v = s
            elif is_t(pre) and pre.sort() == Str or isinstance(pre, str):
                s = T.fresh("c", Str)
                v = s
            elif isinstance(pre, CV):
                w, sg = CT[pre.ct]
                if not sg and (isinstance(pre.t, int) or z3.is_bv(pre.t)):
                    s = T.fresh("c", z3.BitVecSort(w))
                else:
                    s = T.fresh("c", I)
                    self.assume(self.inrange(pre.ct, s))
                v = CV(pre.ct, s)
            else:
                v = Poison("loop-carried variable %s" % key)
            nc[key] = v
            m.c = nc
            return ("scalar" if s is not None else "poison", pre, s)
        if isinstance(m, Lst):
            g = Gen(m.uid, T.fresh("glen", I))
            self.assume(g.length >= 0)
            pre = m.c
            m.c = (g,)
            return ("list", pre, g)
        if isinstance(m, (Dct, St)) and isinstance(m.c, DC):
            # entries are only added; looking into the dictionary during the loop needs an invariant
            g = Gen(m.uid, T.fresh("glen", I))
            pre = m.c
            m.c = DC(None, (g,))
            return ("dict", pre, g)
        h = getattr(m, "generic", None)
        if h is not None:
            return h(self, k, n)
        raise Unsupported("loop modifies %s" % type(m).__name__)

    def finish_loop(self, snap, pc0, n, k, born, gi, paths, body):
        T = self.T
        nexts = [p for p in paths if p.kind == "next"]
        exits = [p for p in paths if p.kind != "next"]

        def conj(p):
            return z3.And(*p.conds) if p.conds else z3.BoolVal(True)

        # --- resolve loop-carried scalars
        sub = []           # (s0, closed form at k)
        post = {}          # (m,key) -> post value at n (function of n)
        unresolved = {}
        for (m, key), (kind, pre, g) in gi.items():
            if kind == "scalar":
                unresolved[(m, key)] = (pre, g)
            elif kind == "list" and any(self._mentions_sym(p, g.length) for p in paths):
                unresolved[(m, "#len")] = (None, g.length)
        guard = 0
        while unresolved:
            progress = False
            syms = [g for (_, g) in unresolved.values()]
            for loc, (pre, s0) in list(unresolved.items()):
                m, key = loc
                if key == "#len":
                    alts = [(conj(p), s0 + self.count_items(p.state.get(m, (0,))[1:])) for p in nexts]
                    pret = self.count_items(gi[(m, None)][1])
                else:
                    alts = []
                    ok = True
                    for p in nexts:
                        c = p.state.get(m)
                        v = c.get(key, MISSING) if c is not None else MISSING
                        if c is None:
                            v = s0
                        t = self.as_sort(v, s0.sort())
                        if t is None:
                            ok = False
                            break
                        alts.append((conj(p), t))
                    pret = self.as_sort(pre, s0.sort())
                    if not ok or pret is None:
                        del unresolved[loc]
                        post[loc] = Poison("loop-carried variable %s" % key)
                        if any(self._mentions_sym(p, s0) for p in paths):
                            raise Unsupported("loop-carried variable %s changes type" % key)
                        progress = True
                        continue
                if not nexts:
                    del unresolved[loc]
                    post[loc] = None
                    sub.append((s0, pret))
                    progress = True
                    continue
                # exactly one 'next' path is taken: any alternative may be the default
                alts.sort(key=lambda a: (mentions(a[0], syms), len(a[0].sexpr())))
                v = self.ite_chain(alts)
                v = z3.simplify(z3.substitute(v, *sub)) if sub else z3.simplify(v)
                others = [s for s in syms if not s.eq(s0)]
                if others and mentions(v, others):
                    continue
                skol = self._inside(v, born, k, extra=[s0])
                if skol:
                    v = self.skolemise(v, skol, k, n, nexts, sub)
                if not mentions(v, [s0]):
                    if key == "#len":
                        raise Unsupported("list length")
                    clk = z3.If(k == 0, pret, z3.substitute(v, (k, k - 1)))
                    cln = z3.If(n > 0, z3.substitute(v, (k, n - 1)), pret)
                else:
                    d = None
                    if v.sort() in (I, R):
                        d = z3.simplify(v - s0, som=True)
                        if mentions(d, [s0]):
                            d2 = self.ite_chain([(z3.substitute(c, *sub) if sub else c, z3.simplify((z3.substitute(t, *sub) if sub else t) - s0)) for c, t in alts])
                            d2 = z3.simplify(d2)
                            d = None if mentions(d2, [s0]) else d2
                    if d is not None:
                        if not mentions(d, [k]) and d.sort() == I:
                            clk = z3.simplify(pret + k * d)
                            cln = pret + z3.If(n > 0, n, iv(0)) * d
                            if z3.is_int_value(d) is False:
                                pass
                        else:
                            clk = pret + T.sum(k, k, d) if False else pret + self._sum_upto(k, d)
                            cln = pret + T.sum(k, n, d)
                    else:
                        clk = self._fold_upto(k, s0, pret, v)
                        cln = T.fold(k, n, s0, pret, v)
                sub = [(a, z3.substitute(b, (s0, clk))) for a, b in sub] + [(s0, clk)]
                if key != "#len":
                    pv = cln
                    if isinstance(pre, CV):
                        pv = CV(pre.ct, cln)
                    post[loc] = pv
                del unresolved[loc]
                progress = True
            if not progress:
                raise Unsupported("mutually dependent loop-carried variables")
            guard += 1
            if guard > 20:
                raise Unsupported("loop-carried variables")

        def sb(v):
            return self.subst_val(v, sub) if sub else v

        # --- symbols introduced inside the body become functions of k
        skol = set()
        for p in paths:
            for f in p.conds + p.facts:
                skol |= self._inside(f, born, k, extra=[s for s, _ in sub])
            for m, c in p.state.items():
                for t in self.terms_of(self.effect_part(m, c, gi)):
                    skol |= self._inside(t, born, k, extra=[s for s, _ in sub])
        skf = []
        for c in sorted(skol, key=str):
            f = z3.Function("sk_" + c.decl().name(), I, c.sort())
            skf.append((c, f(k)))

        def fin(v):
            v = sb(v)
            return self.subst_val(v, skf) if skf else v

        def fint(t):
            return fin(t)

        okk = z3.Or(*[z3.And(*[fint(f) for f in p.conds + p.facts]) if p.conds or p.facts else z3.BoolVal(True) for p in nexts]) if nexts else z3.BoolVal(False)
        okk = z3.simplify(okk)

        choice = None
        if exits:
            choice = None if nexts and self.nd() else exits[-1]
        elif not nexts:
            raise Infeasible()
        self.restore(snap)
        del self.pc[pc0:]
        # path facts that do not depend on the iteration stay
        for p in paths:
            for f in p.facts:
                g = sb(f)
                if not self._inside(g, born, None) and not mentions(g, [k]):
                    self.assume_once(g)
        upto = n
        if choice is not None:
            k0 = T.fresh("k0")
            self.assume(z3.And(k0 >= 0, k0 < n))
            upto = k0
            self.loop_exits.append(k0)
        # --- effects
        for (m, key), (kind, pre, g) in gi.items():
            if kind in ("scalar", "poison", "none"):
                if kind == "scalar":
                    pv = post[(m, key)]
                    if choice is not None and not isinstance(pv, Poison):
                        cl = dict((a.get_id(), b) for a, b in sub).get(g.get_id())
                        cl = z3.substitute(cl, (k, upto))
                        pv = CV(pre.ct, cl) if isinstance(pre, CV) else cl
                    if pv is None:
                        pv = pre
                    if is_t(pv):
                        pv = self.norm(pv)
                elif kind == "none":
                    pv = Poison("variable %s after loop" % key)
                    last = self.last_value(m, key, nexts, k, n, fin)
                    if last is not None:
                        pv = last
                else:
                    pv = Poison("loop-carried variable %s" % key)
                nc = dict(m.c)
                nc[key] = pv
                m.c = nc
            elif kind == "list":
                items = []
                for p in nexts:
                    c = p.state.get(m)
                    if c is None:
                        continue
                    if not (c and isinstance(c[0], Gen) and c[0] is g) or any(isinstance(x, Gen) for x in c[1:]):
                        raise Unsupported("loop rewrites a list")
                    app = [fin_item for fin_item in self.fin_items(c[1:], fin)]
                    if app:
                        cd = fint(z3.And(*p.conds)) if p.conds else z3.BoolVal(True)
                        items.append((app, [z3.simplify(cd)]))
                groups = []
                for app, cd in items:
                    for g_ in groups:
                        if self.same_items(g_[0], app):
                            g_[1].extend(cd)
                            break
                    else:
                        groups.append((app, cd))
                items = []
                for app, cd in groups:
                    c = z3.simplify(z3.Or(*cd)) if len(cd) > 1 else cd[0]
                    items.extend(app if z3.is_true(c) or len(cd) == len(nexts) else [IfI(c, app)])
                if items:
                    m.c = pre + (For(k, upto, items),)
                else:
                    m.c = pre
            elif kind == "dict":
                items = []
                for p in nexts:
                    c = p.state.get(m)
                    if c is None:
                        continue
                    if not isinstance(c, DC) or c.base is not None or not c.items or c.items[0] is not g or any(isinstance(x, Gen) for x in c.items[1:]):
                        raise Unsupported("loop rewrites a dict")
                    app = list(self.fin_items(c.items[1:], fin))
                    if app:
                        cd = z3.simplify(fint(z3.And(*p.conds))) if p.conds else z3.BoolVal(True)
                        items.extend(app if z3.is_true(cd) else [IfI(cd, app)])
                m.c = DC(pre.base, pre.items + ((For(k, upto, items),) if items else ()))
            else:
                m.finish(self, pre, g, k, upto, nexts, fin, fint)
        if choice is None:
            if not (z3.is_true(okk)):
                q = self.forall_k(k, n, okk)
                self.assume(q)
                if skf or True:
                    self.assume(z3.Implies(n > 0, z3.substitute(okk, (k, n - 1))))
                    self.assume(z3.Implies(n > 0, z3.substitute(okk, (k, iv(0)))))
            if not self.feasible():
                raise Infeasible()
            return
        # run the exiting iteration
        if not z3.is_true(okk):
            q = self.forall_k(k, upto, okk)
            self.assume(q)
            self.assume(z3.Implies(upto > 0, z3.substitute(okk, (k, upto - 1))))
        for (m, key), (kind, pre, g) in gi.items():
            f = getattr(m, "at_iteration", None)
            if f is not None:
                f(self, upto)
        if not self.feasible():
            raise Infeasible()
        # every way through iteration k0 is explored; those that do not leave the loop are not the exit
        try:
            body(upto)
        except ContinueX:
            pass
        raise Infeasible()

    def token(self):
        """marks the current point of the path: facts assumed so far are part of it while the token is live"""
        t = (z3.BoolVal(True), True)
        self.pc.append(t)
        return t

    def live(self, t):
        return any(p is t for p in self.pc)

    def assume_once(self, f):
        for g, _ in self.pc:
            if g.eq(f):
                return
        self.assume(f)

    def _sum_upto(self, k, d):
        """Sum_{0<=j<k} d(j) as a term in k"""
        j = z3.Const("bj", I)
        t = self.T.sum(j, k, z3.substitute(d, (k, j)))
        return t

    def _fold_upto(self, k, acc, init, v):
        j = z3.Const("bj", I)
        return self.T.fold(j, k, acc, init, z3.substitute(v, (k, j)))

    def last_value(self, m, key, nexts, k, n, fin):
        if len(nexts) != 1:
            return None
        v = nexts[0].state.get(m, {}).get(key, MISSING) if m in nexts[0].state else MISSING
        if not self.entails(n > 0):
            return None
        try:
            if is_t(v) or isinstance(v, (CV, int, str, tuple)):
                return self.subst_val(fin(v), [(k, n - 1)])
        except Unsupported:
            pass
        return None

    def forall_k(self, k, n, body):
        q = z3.Const("q_" + str(k), I)
        b = z3.substitute(body, (k, q))
        nn = n
        pats = self.patterns(b, q)
        try:
            z3.ForAll([q], z3.BoolVal(True), patterns=pats) if pats else None
        except z3.Z3Exception:
            ok = []
            for p in pats:
                try:
                    z3.ForAll([q], b, patterns=[p])
                    ok.append(p)
                except z3.Z3Exception:
                    pass
            pats = ok
        f = z3.Implies(z3.And(q >= 0, q < nn), b)
        return z3.ForAll([q], f, patterns=pats) if pats else z3.ForAll([q], f)

    def patterns(self, body, q):
        """smallest uninterpreted applications having q as a direct argument"""
        out, seen = [], set()
        st = [body]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(q) for a in x.children()):
                if not any(mentions(a, [q]) and not a.eq(q) for a in x.children()) and not has_ite(x):
                    out.append(x)
            st.extend(x.children())
        ded = []
        for p in out:
            if not any(p.eq(o) for o in ded):
                ded.append(p)
        return ded[:6]

    def ite_chain(self, alts):
        r = alts[-1][1]
        for c, t in reversed(alts[:-1]):
            r = z3.If(c, t, r) if not t.eq(r) else r
        return r

    def as_sort(self, v, sort):
        if isinstance(v, CV):
            v = v.t
        if v is MISSING or v is None or isinstance(v, Poison):
            return None
        if is_t(v):
            if v.sort() == sort:
                return v
            if sort == R and v.sort() == I:
                return z3.ToReal(v)
            if z3.is_bv_sort(sort) and v.sort() == I:
                return intbv(v, sort.size())
            if z3.is_bv(v) and sort == I:
                return bvint(v)
            return None
        if isinstance(v, bool):
            return z3.BoolVal(v) if sort == B else (iv(int(v)) if sort == I else None)
        if isinstance(v, int):
            if sort == I:
                return iv(v)
            if sort == R:
                return z3.RealVal(v)
            if z3.is_bv_sort(sort):
                return z3.BitVecVal(v, sort.size())
        if isinstance(v, float) and sort == R:
            return z3.RealVal(v)
        if isinstance(v, str) and sort == Str:
            return self.T.lit(v)
        return None

    def _inside(self, t, born, k, extra=(), skip_after=None):
        """constants created inside the loop body (other than k, the carried
        symbols and variables bound by inner loops)"""
        out = set()
        ex = {e.get_id() for e in extra}
        for c in free_consts(t):
            b = _birth(c.decl().name())
            if b > born and (k is None or not c.eq(k)) and c.get_id() not in ex:
                if skip_after is not None and c.eq(skip_after):
                    continue
                out.add(c)
        return out

    def _mentions_sym(self, p, s):
        for f in p.conds + p.facts:
            if mentions(f, [s]) and not (z3.is_ge(f) and f.arg(0).eq(s)):
                return True
        for m, c in p.state.items():
            for t in self.terms_of(c if not isinstance(m, (Frame, Obj)) else tuple(c.values())):
                if mentions(t, [s]):
                    return True
        return False

    def effect_part(self, m, c, gi):
        if isinstance(m, (Frame, Obj)):
            return tuple(c[key] for key in c if (m, key) in gi and gi[(m, key)][0] == "scalar")
        if isinstance(m, Lst):
            return c[1:] if c and isinstance(c[0], Gen) else c
        if isinstance(m, (Dct, St)) and isinstance(c, DC):
            return c.items[1:] if c.items and isinstance(c.items[0], Gen) else c.items
        f = getattr(m, "effects", None)
        return f(c) if f else ()

    def skolemise(self, v, skol, k, n, nexts, sub):
        raise Unsupported("loop-carried variable depends on a value chosen inside the loop")

    def terms_of(self, v, bound=frozenset(), depth=0):
        """z3 terms inside a value (bound loop variables of nested For items are excluded by substitution)"""
        out = []

        def rec(v, d):
            if d > 12:
                return
            if is_t(v):
                out.append(v)
            elif isinstance(v, CV):
                rec(v.t, d + 1)
            elif isinstance(v, (tuple, list)):
                for x in v:
                    rec(x, d + 1)
            elif isinstance(v, E):
                rec(v.v, d + 1)
            elif isinstance(v, For):
                rec(v.n, d + 1)
                bk = z3.Const("bound", I)
                its = self.subst_items(v.items, v.k, bk)
                rec(its, d + 1)
            elif isinstance(v, IfI):
                rec(v.cond, d + 1)
                rec(v.a, d + 1)
                rec(v.b, d + 1)
            elif isinstance(v, Seq):
                rec(v.items, d + 1)
            elif isinstance(v, (Lst, BArr)):
                rec(v.c, d + 1)
            elif isinstance(v, Obj):
                rec(tuple(v.c.values()), d + 1)
            elif isinstance(v, FStr):
                rec(v.pieces, d + 1)
            elif isinstance(v, SymEnum):
                rec(v.t, d + 1)
            elif hasattr(v, "terms"):
                rec(v.terms(self), d + 1)
        rec(v, 0)
        return out

    # ------------------------------------------------------ substitution
    def subst_val(self, v, sub):
        if not sub:
            return v
        if is_t(v):
            return z3.substitute(v, *sub)
        if isinstance(v, CV):
            return CV(v.ct, self.subst_val(v.t, sub))
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, sub) for x in v)
        if isinstance(v, E):
            return E(self.subst_val(v.v, sub))
        if isinstance(v, For):
            return For(v.k, self.subst_val(v.n, sub), [self.subst_val(i, sub) for i in v.items])
        if isinstance(v, IfI):
            return IfI(self.subst_val(v.cond, sub), [self.subst_val(i, sub) for i in v.a], [self.subst_val(i, sub) for i in v.b])
        if isinstance(v, Seq):
            return Seq([self.subst_val(i, sub) for i in v.items], v.kind)
        if isinstance(v, Rng):
            return Rng(self.subst_val(v.lo, sub), self.subst_val(v.hi, sub), v.step)
        if isinstance(v, FStr):
            return FStr([self.subst_val(p, sub) for p in v.pieces])
        if isinstance(v, SymEnum):
            return SymEnum(v.cls, self.subst_val(v.t, sub))
        if isinstance(v, Lst):
            ts = self.terms_of(v.c)
            if any(mentions(t, [a for a, _ in sub]) for t in ts):
                return Lst(self, tuple(self.subst_val(i, sub) for i in v.c))
            return v
        if isinstance(v, Obj):
            ts = self.terms_of(v)
            if any(mentions(t, [a for a, _ in sub]) for t in ts):
                o = Obj(self, v.cls, {a: self.subst_val(x, sub) for a, x in v.c.items()})
                return o
            return v
        if hasattr(v, "subst"):
            return v.subst(self, sub)
        return v

    def subst_items(self, items, k, kk):
        if isinstance(kk, int):
            kk = iv(kk)
        if k.eq(kk):
            return tuple(items)
        return tuple(self.subst_val(i, [(k, kk)]) for i in items)

    def fin_items(self, items, fin):
        return [fin(i) for i in items]

    def norm(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return t

    # -------------------------------------------------------- item trees
    def count_items(self, items):
        r = iv(0)
        for it in items:
            if isinstance(it, E):
                r = r + 1
            elif isinstance(it, For):
                c = z3.simplify(self.count_items(it.items))
                if z3.is_int_value(c):
                    nn = it.n if is_t(it.n) else iv(it.n)
                    nn = nn if self.entails(nn >= 0) else z3.If(nn > 0, nn, iv(0))
                    r = r + nn * c
                else:
                    r = r + self.T.sum(it.k, it.n, c)
            elif isinstance(it, IfI):
                r = r + z3.If(it.cond, self.count_items(it.a), self.count_items(it.b))
            elif isinstance(it, Gen):
                it.used = True
                r = r + it.length
        return z3.simplify(r)

    def items_of(self, v):
        """item tree of an iterable value"""
        if isinstance(v, Lst):
            return v.c
        if isinstance(v, Seq):
            return v.items
        if isinstance(v, tuple):
            return tuple(E(x) for x in v)
        if isinstance(v, Rng):
            return self.range_items(v)
        if isinstance(v, str):
            return tuple(E(c) for c in v)
        if isinstance(v, Dct):
            return self.dict_keys(v)
        if isinstance(v, St):
            return self.dict_keys(v)
        if is_t(v) and v.sort() == Str:
            k = self.T.fresh("k")
            return (For(k, slen(v), [E(ssub(v, k, 1))]),)
        if isinstance(v, Obj):
            it = self.getattr_special(v, "__iter__")
            if it is not None:
                return self.items_of(self.call(it, [], {}))
        f = getattr(v, "iter_items", None)
        if f is not None:
            return f(self)
        if isinstance(v, Bound) or isinstance(v, BI):
            pass
        raise Unsupported("iteration over %s" % type(v).__name__)

    def range_items(self, r):
        lo, hi, st = r.lo, r.hi, r.step
        if all(isinstance(x, int) for x in (lo, hi, st)):
            rr = range(lo, hi, st)
            if len(rr) <= 64:
                return tuple(E(x) for x in rr)
        k = self.T.fresh("k")
        lo_, hi_ = self.int_t(lo), self.int_t(hi)
        if st == 1:
            n = hi_ - lo_
            e = lo_ + k
        elif st == -1:
            n = lo_ - hi_
            e = lo_ - k
        elif isinstance(st, int) and st > 0:
            n = (hi_ - lo_ + (st - 1)) / st
            e = lo_ + k * st
        elif isinstance(st, int) and st < 0:
            n = (lo_ - hi_ + (-st - 1)) / (-st)
            e = lo_ + k * st
        else:
            raise Unsupported("range step")
        return (For(k, z3.simplify(n), [E(z3.simplify(e))]),)

    # ------------------------------------------------------------- ints
    def int_t(self, v):
        """z3 Int term (or python value lifted) of an int-like value"""
        if isinstance(v, bool):
            return iv(int(v))
        if isinstance(v, int):
            return iv(v)
        if isinstance(v, CV):
            if isinstance(v.t, int):
                return iv(v.t)
            if z3.is_bv(v.t):
                w, sg = CT[v.ct]
                if v.t.sort().size() != w:
                    raise Unsupported("bit width")
                if sg:
                    return z3.simplify(z3.If(bvint(v.t) >= 2 ** (w - 1), bvint(v.t) - 2 ** w, bvint(v.t)))
                return bvint(v.t)
            return v.t
        if isinstance(v, EnumVal):
            return self.int_t(v.value)
        if isinstance(v, SymEnum):
            return v.t
        if is_t(v):
            if v.sort() == I:
                return v
            if v.sort() == B:
                return z3.If(v, iv(1), iv(0))
            if z3.is_bv(v):
                return bvint(v)
        raise Unsupported("integer expected, got %s" % type(v).__name__)

    def is_int(self, v):
        return isinstance(v, (int, CV, SymEnum)) or (isinstance(v, EnumVal) and isinstance(v.value, int)) or (is_t(v) and (v.sort() == I or v.sort() == B or z3.is_bv(v)))

    def pyint(self, v):
        """Python-level int value (python int or Int term) of v"""
        t = self.int_t(v)
        if z3.is_int_value(t):
            return t.as_long()
        s = z3.simplify(t)
        return s.as_long() if z3.is_int_value(s) else s

    def inrange(self, ct, t):
        w, sg = CT[ct]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        return z3.And(t >= lo, t <= hi)

    def c_coerce(self, ct, v, cast=False):
        """value of C type ct from v; Python ints outside the range raise OverflowError (as Cython does)"""
        if ct.endswith("*"):
            return v
        if ct not in CT:
            if NUMERIC.search(ct):
                raise Unsupported("C type %s" % ct)
            return v     # a Python type
        w, sg = CT[ct]
        if ct == "bint":
            return CV("int", z3.If(self.truth_t(v), iv(1), iv(0)))
        if isinstance(v, CV):
            if isinstance(v.t, int):
                x = v.t & ((1 << w) - 1)
                if sg and x >= 1 << (w - 1):
                    x -= 1 << w
                return CV(ct, x)
            if z3.is_bv(v.t):
                ow, osg = CT[v.ct]
                t = v.t
                if ow < w:
                    t = z3.SignExt(w - ow, t) if osg else z3.ZeroExt(w - ow, t)
                elif ow > w:
                    t = z3.Extract(w - 1, 0, t)
                return CV(ct, t)
            if self.entails(self.inrange(ct, v.t)):
                return CV(ct, v.t)
            if sg:
                return CV(ct, self._wrap_signed(v.t, w))
            return CV(ct, v.t % (1 << w))
        if isinstance(v, (bool, int)) or self.is_int(v):
            t = self.pyint(v)
            if isinstance(t, int):
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                if lo <= t <= hi:
                    return CV(ct, t)
                if cast:
                    return self.c_coerce(ct, CV("int64_t", t), True)
                self.raise_("OverflowError", "C integer")
            if is_t(v) and z3.is_bv(v) and v.sort().size() == w:
                return CV(ct, v)
            r = self.inrange(ct, t)
            if self.entails(r):
                return CV(ct, t)
            if not self.branch(r):
                self.raise_("OverflowError", "C integer")
            return CV(ct, t)
        if v is None:
            raise Unsupported("None as C integer")
        return v

    def _wrap_signed(self, t, w):
        m = t % (1 << w)
        return z3.If(m >= 1 << (w - 1), m - (1 << w), m)

    def c_binop(self, op, a, b):
        def lift(x):
            if isinstance(x, CV):
                return x
            if isinstance(x, bool):
                return CV("int", int(x))
            if isinstance(x, int):
                return CV("int", x) if -(1 << 31) <= x < (1 << 31) else CV("int64_t", x) if x < 1 << 63 else CV("uint64_t", x)
            raise Unsupported("mixed C / Python arithmetic")
        a, b = lift(a), lift(b)

        def promote(x):
            w, sg = CT[x.ct]
            return self.c_coerce("int", x) if w < 32 else x
        if op in ("<<", ">>"):
            a, b = promote(a), promote(b)
            rt = a.ct
        else:
            a, b = promote(a), promote(b)
            (wa, sa), (wb, sb_) = CT[a.ct], CT[b.ct]
            w = max(wa, wb)
            if wa == wb:
                sg = sa and sb_
            else:
                sg = sa if wa > wb else sb_
            rt = _BYW[(w, sg)]
            if CT[a.ct] == (w, sg):
                rt = a.ct
            a, b = self.c_coerce(rt, a), self.c_coerce(rt, b)
        w, sg = CT[rt]
        if isinstance(a.t, int) and isinstance(b.t, int) and op in ("+", "-", "*", "^", "&", "|", "<<", ">>"):
            x = {"+": a.t + b.t, "-": a.t - b.t, "*": a.t * b.t, "^": a.t ^ b.t, "&": a.t & b.t, "|": a.t | b.t,
                 "<<": a.t << b.t if b.t < 128 else 0, ">>": a.t >> b.t}[op]
            return self.c_coerce(rt, CV("int64_t", x))
        isbv = (is_t(a.t) and z3.is_bv(a.t)) or (is_t(b.t) and z3.is_bv(b.t))
        allbv = all(isinstance(x.t, int) or z3.is_bv(x.t) for x in (a, b))
        if op in ("^", "&", "|", "<<", ">>") or (isbv and allbv and op in ("+", "-", "*") and not sg):
            x, y = self.to_bv(a, w), self.to_bv(b, w)
            if op == "+":
                r = x + y
            elif op == "-":
                r = x - y
            elif op == "*":
                r = x * y
            elif op == "^":
                r = x ^ y
            elif op == "&":
                r = x & y
            elif op == "|":
                r = x | y
            elif op == "<<":
                r = x << y
            else:
                r = (x >> y) if sg else z3.LShR(x, y)
            return CV(rt, r)
        x, y = self.int_t(a), self.int_t(b)
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op in ("%", "//"):
            if self.entails(y > 0) and self.entails(x >= 0):
                r = x % y if op == "%" else x / y
            elif not sg or self.entails(y > 0):
                if self.branch(y == 0):
                    self.raise_("ZeroDivisionError", "")
                if self.entails(x >= 0) and self.entails(y > 0):
                    r = x % y if op == "%" else x / y
                else:
                    raise Unsupported("C division with negative operand")
            else:
                raise Unsupported("C division")
        else:
            raise Unsupported("C operator " + op)
        r = z3.simplify(r)
        if self.entails(self.inrange(rt, r)):
            return CV(rt, self.pyint(r))
        if sg:
            raise Unsupported("possible signed overflow")
        return CV(rt, r % (1 << w))

    def to_bv(self, v, w):
        if isinstance(v, CV):
            v = v.t
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if z3.is_bv(v):
            if v.sort().size() == w:
                return v
            return z3.ZeroExt(w - v.sort().size(), v) if v.sort().size() < w else z3.Extract(w - 1, 0, v)
        if False:
            return v.arg(0)
        return intbv(v, w)

    # ------------------------------------------------------------ raise
    def raise_(self, name, msg=""):
        raise PyRaise(ExcV(self.B[name], (msg,)))

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        ext = self.ext_module(name)
        if ext is not None:
            self.mods[name] = ext
            return ext
        tree, is_c, path = frontend.load_tree(name)
        m = Mod(name, {})
        self.mods[name] = m
        self.modast[name] = tree
        saved = (self.heap, self.uid, self.exs, self.pc)
        self.heap, self.exs, self.pc = [], [Ex([], [], -2)], []
        try:
            f = Frame(self, m.d)
            f.fn, f.ctypes, f.glob, f.outer, f.node = None, {}, m, None, None
            m.d["__name__"] = name
            for st in tree.body:
                self.mod_stmt(st, f, m)
        finally:
            self.heap, _, self.exs, self.pc = saved
        return m

    def mod_stmt(self, st, f, m):
        if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == "__name__":
            return
        f.c = m.d
        self.stmt(st, f)
        m.d = f.c

    def ext_module(self, name):
        root = name.split(".")[0]
        if root == "finalfusion":
            return None
        if name.startswith("__c__"):
            return self.B["__cmod__"](name)
        if name in self.ext:
            return Mod(name, self.ext[name])
        return Mod(name, {})

    def fn(self, qual):
        """resolve 'module:func' or 'module:Class.method'"""
        mod, _, rest = qual.partition(":")
        v = self.module(mod)
        o = None
        for part in rest.split("."):
            if isinstance(v, Mod):
                if part not in v.d:
                    raise Unsupported("no %s in %s" % (part, mod))
                v = v.d[part]
            elif isinstance(v, Cls):
                x, _ = v.lookup(part)
                if x is None:
                    raise Unsupported("no %s in %s" % (part, v.name))
                v = x
        return v
