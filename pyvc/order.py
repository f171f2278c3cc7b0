"""Ordering: sorted, heapq, argsort, comparison of dataclasses (assumed contracts: the result is an
ordered permutation of the input), and the counting lemma for filtered lists."""
import z3
from terms import *
from values import *
from prove import Scope, Why
from interp import Engine
from builtins_ import ASSUMED


class HeapEl:
    """element of a list used as heap: its place in the list is unspecified"""
    __slots__ = ("v",)
    cls = None

    def __init__(self, v):
        self.v = v

    def terms(self, eng):
        return tuple(eng.terms_of(self.v))

    def index_terms(self):
        return []

    def subst(self, eng, sub):
        return HeapEl(eng.subst_val(self.v, sub))


def wrap(it):
    if isinstance(it, E):
        return it if isinstance(it.v, HeapEl) else E(HeapEl(it.v))
    if isinstance(it, For):
        return For(it.k, it.n, [wrap(x) for x in it.items])
    if isinstance(it, IfI):
        return IfI(it.cond, [wrap(x) for x in it.a], [wrap(x) for x in it.b])
    raise Unsupported("heap")


def unwrap(it):
    if isinstance(it, E):
        return E(it.v.v) if isinstance(it.v, HeapEl) else it
    if isinstance(it, For):
        return For(it.k, it.n, [unwrap(x) for x in it.items])
    if isinstance(it, IfI):
        return IfI(it.cond, [unwrap(x) for x in it.a], [unwrap(x) for x in it.b])
    raise Unsupported("heap")


def heappush(e, a, k):
    import builtins_
    builtins_.l_append(e, a[0], [HeapEl(a[1])], {})


def heapify(e, a, k):
    a[0].c = tuple(wrap(i) for i in a[0].c)


def shape_of(e, its):
    """(binder, count, condition, value) of a plain or filtered list over one loop"""
    if len(its) == 1 and isinstance(its[0], For) and len(its[0].items) == 1:
        g, x = its[0], its[0].items[0]
        conds = []
        while isinstance(x, IfI) and not x.b and len(x.a) == 1:
            conds.append(x.cond)
            x = x.a[0]
        if isinstance(x, E):
            return g.k, e.int_t(g.n), z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True), x.v
    raise Unsupported("ordering of this list")


def lt(e, x, y):
    r = e.compare("<", x, y)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def permute(e, its, key, reverse):
    """(length, item at rank t): ordered permutation of the items"""
    k, n, cond, v = shape_of(e, its)
    m = e.int_t(e.count_items(its))
    if not e.entails(m >= 0):
        e.assume(m >= 0)     # a length
    e.T.cnt += 1
    HI, POS = z3.Function("rank!%d" % e.T.cnt, I, I), z3.Function("rankinv!%d" % e.T.cnt, I, I)
    # the position is counted from an offset that makes the arguments f(k + c) plain
    sh = shifted(list(e.terms_of(v)) + [cond], k)
    lo = iv(0)
    if sh and not z3.is_int_value(sh[0][1]):
        lo = sh[0][1]
        k2 = e.T.fresh("k")
        v = e.subst_val(v, [(k, z3.simplify(k2 - lo))])
        cond = z3.simplify(z3.substitute(cond, (k, k2 - lo)))
        k = k2
        n = z3.simplify(n + lo)
    at = lambda t, x: z3.substitute(t, (k, x))
    q, q2 = z3.Const("q_s", I), z3.Const("q_t", I)
    # total bijections of the integers that map [0, m) onto the items kept (values outside are unspecified)
    e.assume(z3.ForAll([q], z3.And(POS(HI(q)) == q, z3.Implies(z3.And(q >= 0, q < m), z3.And(HI(q) >= lo, HI(q) < n, at(cond, HI(q))))), patterns=[HI(q)]))
    body = lambda x: z3.simplify(z3.And(HI(POS(x)) == x, z3.Implies(z3.And(x >= lo, x < n, at(cond, x)), z3.And(POS(x) >= 0, POS(x) < m))))
    e.assume(z3.ForAll([q], body(q), patterns=[POS(q)]))
    for f, c in shifted(list(e.terms_of(v)) + [cond], k):
        e.assume(z3.ForAll([q], body(q - c), patterns=[f(q)]))
    kv = e.call(key, [v], {}) if key is not None else v
    a, b = e.T.fresh("a"), e.T.fresh("b")
    l = lt(e, e.subst_val(kv, [(k, a)]), e.subst_val(kv, [(k, b)]))
    if reverse:
        bad = lambda s, t: z3.substitute(l, (a, HI(s)), (b, HI(t)))
    else:
        bad = lambda s, t: z3.substitute(l, (a, HI(t)), (b, HI(s)))
    e.assume(z3.ForAll([q, q2], z3.Implies(z3.And(q >= 0, q < q2, q2 < m), z3.Not(bad(q, q2))), patterns=[z3.MultiPattern(HI(q), HI(q2))]))
    e.perms.append((POS, HI))
    ASSUMED.add("heapq / sorted / argsort return an ordered permutation of their input")
    if not z3.is_true(cond):
        filter_lemma(e, k, lo, n, cond, m)
    return m, lambda t: e.subst_val(v, [(k, HI(t))])


def shifted(ts, k):
    """(f, c) for applications f(k + c) of one argument among the terms"""
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.arg(0).sort() == I:
            c = z3.simplify(x.arg(0) - k)
            if not mentions(c, [k]) and not any(o[0].eq(x.decl()) for o in out):
                out.append((x.decl(), c))
        st.extend(x.children())
    return out


def injective(e, t, k, lo, n):
    a, b = e.T.fresh("a"), e.T.fresh("b")
    with Scope(e, z3.And(a >= lo, a < b, b < n)):
        return e.entails(z3.substitute(t, (k, a)) != z3.substitute(t, (k, b)))


def filter_lemma(e, k, lo, n, cond, m):
    """if the items left out by the condition map injectively into a finite set S, at least n - |S| are kept"""
    if z3.is_app_of(cond, z3.Z3_OP_TRUE):
        return
    cands = [f(k + c) for f, c in shifted([cond], k)]
    for has, card in e.set_reg:
        for x in cands + [k]:
            with Scope(e, k >= lo, k < n, z3.Not(cond)):
                ok = e.entails(has(x))
            if ok and injective(e, x, k, lo, n):
                e.assume(m >= n - lo - card)
                ASSUMED.add("lemma: a list of distinct values loses at most |S| elements when members of the finite set S are left out (proved in lemmas/Lemmas.lean)")
                break


def b_sorted(e, a, k):
    its = e.items_of(a[0])
    rev = e.truth_t(k.get("reverse", False))
    if not isinstance(rev, bool):
        raise Unsupported("sorted(reverse)")
    its = tuple(unwrap(i) for i in its)
    if all(isinstance(i, E) for i in its) and len(its) <= 1:
        return Lst(e, its)
    m, at = permute(e, its, k.get("key"), rev)
    t = e.T.fresh("k")
    return Lst(e, (For(t, m, [E(at(t))]),))


def nlargest(rev):
    def f(e, a, k):
        cnt = a[0] if a else k["n"]
        src = a[1] if len(a) > 1 else k["iterable"]
        l = b_sorted(e, [src], {"key": a[2] if len(a) > 2 else k.get("key"), "reverse": rev})
        c = e.int_t(cnt)
        m = e.int_t(e.length(l))
        if all(isinstance(i, E) for i in l.c):
            if not l.c or e.branch(c <= 0):
                return Lst(e, ())
            return l
        t = iv(0) if len(e.exs) == 1 and e.branch(c <= 0) else e.pick(c < m, c, m) if len(e.exs) == 1 else z3.simplify(z3.If(c <= 0, iv(0), z3.If(c < m, c, m)))
        g = l.c[0]
        return Lst(e, (For(g.k, t, g.items),))
    return f


def argsort(e, a, k):
    from arrays import AX, mk
    x = a[0]
    d = x.values()
    if len(d.shape) != 1 or len(a) > 1 or set(k) - {"kind"}:
        raise Unsupported("argsort arguments")
    q = e.T.fresh("k")
    its = (For(q, d.shape[0], [E((z3.substitute(d.body(), (AX[0], q)), q))]),)
    m, at = permute(e, its, BI("key", lambda e2, a2, k2: a2[0][0]), False)
    return mk(e, [d.shape[0]], at(AX[0])[1], "int64")


def compare_obj(e, op, a, b):
    """ordering of objects: __lt__ etc., or the one generated by @dataclass(order=True)"""
    nm = {"<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}[op]
    for x, y, n in ((a, b, nm), (b, a, {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}[nm])):
        if isinstance(x, Obj):
            m, _ = x.cls.lookup(n)
            if isinstance(m, Fn):
                r = e.call(m, [x, y], {})
                return r
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls.d.get("__dcorder__"):
        fs = [f for f in a.cls.d["__dataclass__"] if not (isinstance(a.cls.d["__dcfields__"].get(f), tuple) and a.cls.d["__dcfields__"][f][0] == "field" and a.cls.d["__dcfields__"][f][1].get("compare", True) is False)]
        strict = op[0]
        r = z3.BoolVal(len(op) == 2)
        for f in reversed(fs):
            x, y = e.getattr(a, f), e.getattr(b, f)
            l = e.compare(strict, x, y)
            q = e.equal(x, y)
            l, q = (z3.BoolVal(t) if isinstance(t, bool) else t for t in (l, q))
            r = z3.Or(l, z3.And(q, r))
        return e.norm(z3.simplify(r))
    e.raise_("TypeError", "'%s' not supported" % op)


def install(eng):
    eng.perms, eng.set_reg = [], []
    eng.ext["heapq"] = {"heappush": BI("heappush", heappush), "heapify": BI("heapify", heapify), "nlargest": BI("nlargest", nlargest(True)), "nsmallest": BI("nsmallest", nlargest(False))}
