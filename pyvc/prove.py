"""Equality of symbolic values and of (symbolically sized) sequences.

prove_* return None when the obligation is discharged, otherwise a Why record:
kind 'refuted'   - the solver found (or could not exclude, after saturating) a countermodel
     'undecided' - timeout, or the two sides have shapes the prover cannot align
"""
import z3
from terms import *
from values import *
from interp import Engine, CT
from interp2 import meth


class Why:
    def __init__(self, kind, msg, model=None):
        self.kind, self.msg, self.model = kind, msg, model

    def __repr__(self):
        return "%s: %s" % (self.kind, self.msg)


class Scope:
    """temporarily extended path condition"""

    def __init__(self, eng, *fs):
        self.e, self.fs = eng, fs

    def __enter__(self):
        self.n = len(self.e.pc)
        for f in self.fs:
            f = z3.simplify(f) if not z3.is_quantifier(f) else f
            self.e.pc.append((f, True))
        return self

    def __exit__(self, *a):
        del self.e.pc[self.n:]


@meth
def goal(self, f, what="", timeout=None):
    """discharge f under the current path condition"""
    if isinstance(f, bool):
        f = z3.BoolVal(f)
    if self.entails(f, timeout):
        return None
    if z3.is_and(f):
        for c in f.children():
            w = self.goal(c, what, timeout)
            if w:
                return w
        return None
    if z3.is_eq(f) or z3.is_app(f):
        w = self.with_congruence(f, timeout)
        if w:
            return None
    r = self.S.check(self.facts() + [z3.Not(f)], timeout)
    if r in ("incomplete", "unknown") and what and self.sec_failed < 8:
        r = self.S.second_opinion(self.facts() + [z3.Not(f)], r)
        if r == "unsat":
            return None
        self.sec_failed += 1
    kind = "refuted" if r in ("sat", "incomplete") else "undecided"
    m = ""
    if r in ("sat", "incomplete"):
        try:
            _, mod = self.S.check(self.facts() + [z3.Not(f)], timeout, want_model=True)
            if mod is not None:
                m = ", ".join("%s=%s" % (d, mod[d]) for d in list(mod.decls())[:40] if d.arity() == 0)[:600]
        except z3.Z3Exception:
            pass
    return Why(kind, "%s: cannot derive %s (%s)" % (what, str(z3.simplify(f))[:500], r), m)


@meth
def outer_binders(self, t):
    names = self.T.byname
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().name() in names:
            out.append(x)
            continue
        st.extend(x.children())
    return out


@meth
def with_congruence(self, f, timeout=None):
    """try to prove f with equalities between sums/folds obtained by pointwise comparison"""
    if self.__dict__.setdefault("_cong", 0) > 4:
        return False
    self._cong += 1
    try:
        apps = self.outer_binders(f)
        eqs = []
        for i in range(len(apps)):
            for j in range(i):
                x, y = apps[j], apps[i]
                if x.sort() != y.sort() or any((a.eq(x) and b.eq(y)) for a, b in eqs):
                    continue
                bx, by = self.T.byname[x.decl().name()], self.T.byname[y.decl().name()]
                if bx.kind != by.kind:
                    continue
                if self.binder_eq(x, y, bx, by):
                    eqs.append((x, y))
        if not eqs:
            return False
        with Scope(self, *[a == b for a, b in eqs]):
            return self.entails(f, timeout)
    finally:
        self._cong -= 1


@meth
def binder_eq(self, x, y, bx, by):
    nx, ny = x.arg(0), y.arg(0)
    if not self.entails(z3.Or(nx == ny, z3.And(nx <= 0, ny <= 0))):
        return False
    k = self.T.fresh("ck")
    with Scope(self, k >= 0, k < nx):
        if bx.kind == "Fold":
            if not self.entails(x.arg(1) == y.arg(1)):
                return False
            acc = self.T.fresh("cacc", x.sort())
            ox = z3.substitute(self.T.open(x, k), (bx.acc, acc))
            oy = z3.substitute(self.T.open(y, k), (by.acc, acc))
            return self.goal(ox == oy) is None
        return self.goal(self.T.open(x, k) == self.T.open(y, k)) is None


# ------------------------------------------------------------------ values
@meth
def prove_val(self, a, b, what=""):
    """None if a == b provably (structurally, as Python values)"""
    h = getattr(a, "prove_eq", None)
    if h is not None:
        r = h(self, b, what)
        if r is not NotImplemented:
            return r
    h = getattr(b, "prove_eq", None)
    if h is not None:
        r = h(self, a, what)
        if r is not NotImplemented:
            return r
    if a is b:
        return None
    if isinstance(a, (EnumVal, SymEnum)) or isinstance(b, (EnumVal, SymEnum)):
        if isinstance(a, (EnumVal, SymEnum)) and isinstance(b, (EnumVal, SymEnum)):
            if a.cls is not b.cls:
                return Why("refuted", "%s: different enumerations" % what)
        if self.is_int(a) and self.is_int(b):
            return self.goal(self.int_t(a) == self.int_t(b), what)
        return Why("refuted", "%s: %r is not %r" % (what, a, b))
    if a is None or b is None:
        return Why("refuted", "%s: %s is not %s" % (what, _sh(a), _sh(b)))
    if isinstance(a, bool) or isinstance(b, bool) or (is_t(a) and a.sort() == B):
        ta, tb = self.truth_t(a), self.truth_t(b)
        ta = z3.BoolVal(ta) if isinstance(ta, bool) else ta
        tb = z3.BoolVal(tb) if isinstance(tb, bool) else tb
        return self.goal(ta == tb, what)
    if self.is_int(a) and self.is_int(b):
        if is_t(a) and is_t(b) and a.sort() == b.sort():
            return self.goal(a == b, what)
        if isinstance(a, CV) and isinstance(b, CV) and is_t(a.t) and is_t(b.t) and a.t.sort() == b.t.sort():
            return self.goal(a.t == b.t, what)
        return self.goal(self.int_t(a) == self.int_t(b), what)
    if self.is_str(a) and self.is_str(b) and not isinstance(a, FStr) and not isinstance(b, FStr):
        if isinstance(a, str) and isinstance(b, str):
            return None if a == b else Why("refuted", "%s: %r != %r" % (what, a, b))
        return self.goal(self.str_t(a) == self.str_t(b), what)
    if isinstance(a, FStr) or isinstance(b, FStr):
        pa = a.pieces if isinstance(a, FStr) else (a,)
        pb = b.pieces if isinstance(b, FStr) else (b,)
        if len(pa) != len(pb):
            return Why("undecided", "%s: string formats differ: %r / %r" % (what, pa, pb))
        for x, y in zip(pa, pb):
            w = self.prove_val(x, y, what)
            if w:
                return w
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return Why("refuted", "%s: tuple lengths %d and %d" % (what, len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            w = self.prove_val(x, y, "%s[%d]" % (what, i))
            if w:
                return w
        return None
    if isinstance(a, (Lst, Seq, tuple, Rng)) and isinstance(b, (Lst, Seq, tuple, Rng)):
        return self.prove_items(self.items_of(a), self.items_of(b), what)
    if (is_t(a) and a.sort() == R or isinstance(a, float)) or (is_t(b) and b.sort() == R or isinstance(b, float)):
        try:
            return self.goal(self.real_t(a) == self.real_t(b), what)
        except Unsupported:
            return Why("undecided", "%s: real comparison" % what)
    if is_t(a) and is_t(b) and a.sort() == b.sort():
        return self.goal(a == b, what)
    if isinstance(a, (Dct, St)) and isinstance(b, (Dct, St)):
        return self.prove_dict(a, b, what)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return Why("undecided", "%s: different objects" % what)
    if isinstance(a, bytes) and isinstance(b, bytes):
        return None if a == b else Why("refuted", "%s: %r != %r" % (what, a, b))
    return Why("refuted" if type(a) is not type(b) and not (is_t(a) and is_t(b)) else "undecided", "%s: %s versus %s" % (what, _sh(a), _sh(b)))


def _sh(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + "..."


@meth
def prove_dict(self, a, b, what):
    """same mapping (ignoring order)"""
    fa, fb = self.dfun(a.c), self.dfun(b.c)
    if a.c is b.c:
        return None
    q = self.T.fresh("dk", Str)
    try:
        ha, hb = fa.has(q), fb.has(q)
    except Exception as ex:
        return Why("undecided", "%s: dictionaries with other key types" % what)
    w = self.goal(ha == hb, what + " (keys)")
    if w:
        return w
    if isinstance(a, Dct):
        with Scope(self, ha):
            return self.prove_val(fa.val(q), fb.val(q), what + " (values)")
    return None


# --------------------------------------------------------------- sequences
@meth
def clean_items(self, items):
    """drop provably empty parts, resolve decided conditions, unroll single iterations"""
    out = []
    for it in items:
        if isinstance(it, For):
            n = it.n if is_t(it.n) else iv(it.n)
            n = z3.simplify(n)
            if z3.is_int_value(n) and n.as_long() <= 0:
                continue
            if not it.items:
                continue
            if z3.is_int_value(n) and n.as_long() <= 4:
                for j in range(n.as_long()):
                    out.extend(self.clean_items(self.subst_items(it.items, it.k, iv(j))))
                continue
            if self.entails(n <= 0):
                continue
            if self.entails(n == 1):
                out.extend(self.clean_items(self.subst_items(it.items, it.k, iv(0))))
                continue
            out.append(For(it.k, n, it.items))
        elif isinstance(it, IfI):
            c = it.cond
            if not it.a and not it.b:
                continue
            if self.entails(c):
                out.extend(self.clean_items(it.a))
            elif self.entails(z3.Not(c)):
                out.extend(self.clean_items(it.b))
            else:
                out.append(it)
        else:
            out.append(it)
    return tuple(out)


@meth
def prove_empty(self, items, what, depth=0):
    for it in self.clean_items(items):
        if isinstance(it, E):
            return Why("refuted", "%s: has an extra element %s" % (what, _sh(it.v))) if self.feasible() else None
        if isinstance(it, For):
            k = self.T.fresh("ke")
            with Scope(self, k >= 0, k < it.n):
                if not self.feasible():
                    continue
                w = self.prove_empty(self.subst_items(it.items, it.k, k), what, depth + 1)
            if w:
                return w
        elif isinstance(it, IfI):
            with Scope(self, it.cond):
                w = self.prove_empty(it.a, what, depth + 1) if self.feasible() else None
            if w:
                return w
            with Scope(self, z3.Not(it.cond)):
                w = self.prove_empty(it.b, what, depth + 1) if self.feasible() else None
            if w:
                return w
        else:
            return Why("undecided", "%s: list being built" % what)
    return None


@meth
def prove_items(self, A, Bs, what="", depth=0):
    if depth > 14:
        return Why("undecided", "%s: sequences cannot be aligned" % what)
    A, Bs = self.clean_items(A), self.clean_items(Bs)
    while A and Bs and isinstance(A[0], E) and isinstance(Bs[0], E):
        w = self.prove_val(A[0].v, Bs[0].v, what + " element")
        if w:
            return w
        A, Bs = A[1:], Bs[1:]
    while A and Bs and isinstance(A[-1], E) and isinstance(Bs[-1], E):
        w = self.prove_val(A[-1].v, Bs[-1].v, what + " element")
        if w:
            return w
        A, Bs = A[:-1], Bs[:-1]
    if not A and not Bs:
        return None
    if not A or not Bs:
        return self.prove_empty(A or Bs, what)
    # same condition on both sides / case split
    for side in (A, Bs):
        if isinstance(side[0], IfI):
            c = side[0].cond
            for f in (c, z3.Not(c)):
                with Scope(self, f):
                    if not self.feasible():
                        continue
                    w = self.prove_items(A, Bs, what, depth + 1)
                if w:
                    return w
            return None
    a, b = A[0], Bs[0]
    if isinstance(a, Gen) or isinstance(b, Gen):
        return Why("undecided", "%s: list being built" % what)
    if isinstance(a, For) and isinstance(b, For):
        last = None
        if len(A) == 1 and len(Bs) == 1:
            w = self.prove_for(a, b, what, depth)
            return w
        # same extent: compare head with head
        if self.entails(a.n == b.n):
            w = self.prove_for(a, b, what, depth)
            if w is None:
                return self.prove_items(A[1:], Bs[1:], what, depth + 1)
            last = w
        # split the longer one
        for X, Y, flip in ((A, Bs, False), (Bs, A, True)):
            x, y = X[0], Y[0]
            if len(Y) > 1 and self.entails(z3.And(y.n >= 0, y.n <= x.n)):
                head = For(x.k, y.n, x.items)
                k2 = self.T.fresh("k")
                rest = For(k2, z3.simplify(x.n - y.n), self.subst_items(x.items, x.k, k2 + y.n))
                w = self.prove_for(head, y, what, depth) if not flip else self.prove_for(y, head, what, depth)
                if w is None:
                    XX, YY = (rest,) + X[1:], Y[1:]
                    return self.prove_items(XX, YY, what, depth + 1) if not flip else self.prove_items(YY, XX, what, depth + 1)
                last = last or w
        # the heads may have different sizes but equal content
        w = self.prove_for(a, b, what, depth)
        if w is None:
            return self.prove_items(A[1:], Bs[1:], what, depth + 1)
        return last or w
    # one side starts with a loop, the other with an element: peel
    for X, Y, flip in ((A, Bs, False), (Bs, A, True)):
        x = X[0]
        if isinstance(x, For):
            for f in (x.n <= 0, x.n > 0):
                with Scope(self, f):
                    if not self.feasible():
                        continue
                    if z3.is_le(f) or not self.entails(x.n > 0):
                        XX = X[1:]
                    else:
                        k2 = self.T.fresh("k")
                        XX = self.subst_items(x.items, x.k, iv(0)) + (For(k2, z3.simplify(x.n - 1), self.subst_items(x.items, x.k, k2 + 1)),) + X[1:]
                    w = self.prove_items(XX, Y, what, depth + 1) if not flip else self.prove_items(Y, XX, what, depth + 1)
                if w:
                    return w
            return None
    return Why("undecided", "%s: cannot align" % what)


@meth
def leaf_terms(self, items):
    """first leaf element of an item tree"""
    for it in items:
        if isinstance(it, E):
            return it.v
        if isinstance(it, For):
            v = self.leaf_terms(it.items)
            if v is not None:
                return v
        if isinstance(it, IfI):
            v = self.leaf_terms(it.a) if it.a else self.leaf_terms(it.b)
            if v is not None:
                return v
    return None


def _slope(t, k):
    a0 = z3.simplify(z3.substitute(t, (k, iv(0))))
    s = z3.simplify(t - a0, som=True)
    s1 = z3.simplify(z3.substitute(t, (k, iv(1))) - a0, som=True)
    s5 = z3.simplify(z3.substitute(t, (k, iv(5))) - a0, som=True)
    if z3.is_int_value(s1) and z3.is_int_value(s5) and s5.as_long() == 5 * s1.as_long():
        return a0, s1.as_long()
    return a0, None


def shifts(a, b, ka, kb, out, depth=0):
    """candidate c with kb = ka + c, from corresponding integer arguments"""
    if depth > 12 or len(out) > 6:
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            shifts(x, y, ka, kb, out, depth + 1)
        return
    if isinstance(a, CV):
        a = a.t
    if isinstance(b, CV):
        b = b.t
    if not (is_t(a) and is_t(b)):
        ia, ib = getattr(a, "index_terms", None), getattr(b, "index_terms", None)
        if ia is not None and ib is not None:
            for x, y in zip(ia(), ib()):
                shifts(x, y, ka, kb, out, depth + 1)
        return
    if a.sort() != b.sort():
        return
    if a.sort() == I:
        a0, s = _slope(a, ka)
        b0, s2 = _slope(b, kb)
        if s in (1, -1) and s == s2:
            c = z3.simplify((a0 - b0) * s)
            if not any(c.eq(o) for o in out):
                out.append(c)
            return
    if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()):
        for x, y in zip(a.children(), b.children()):
            shifts(x, y, ka, kb, out, depth + 1)


def affine_subterms(eng, v, k):
    """(value at 0, slope) of the maximal integer subterms affine in k with slope +-1, most frequent first"""
    found = {}
    st = [t for t in eng.terms_of(v)]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if not mentions(t, [k]):
            continue
        if t.sort() == I:
            t0, sl = _slope(t, k)
            if sl in (1, -1):
                key = (t0.get_id(), sl)
                found.setdefault(key, [0, t0, sl])[0] += 1
                continue
        st.extend(t.children())
    return [(t0, sl) for _, t0, sl in sorted(found.values(), key=lambda x: -x[0])]


@meth
def prove_for(self, a, b, what, depth=0):
    cand = [iv(0)]
    la, lb = self.leaf_terms(a.items), self.leaf_terms(b.items)
    out = []
    if la is not None and lb is not None:
        shifts(la, lb, a.k, b.k, out)
    if a.items and b.items and isinstance(a.items[0], IfI) and isinstance(b.items[0], IfI) and is_t(a.items[0].cond) and is_t(b.items[0].cond):
        shifts(a.items[0].cond, b.items[0].cond, a.k, b.k, out)
    if not out and la is not None and lb is not None:
        c = z3.simplify(b.n - a.n)
        if not mentions(c, [a.k, b.k]):
            out.append(c)
        for x0, sx in affine_subterms(self, la, a.k)[:6]:
            for y0, sy in affine_subterms(self, lb, b.k)[:6]:
                if sx == sy:
                    c = z3.simplify((x0 - y0) * sx)
                    if not any(c.eq(o) for o in out):
                        out.append(c)
        out = out[:8]
    for c in out:
        if not (z3.is_int_value(c) and c.as_long() == 0):
            if mentions(c, [a.k, b.k]):
                continue
            cand.append(c)
    first = None
    for c in cand:
        w = self.prove_shifted(a, b, c, what, depth)
        if w is None:
            return None
        if first is None or (first.kind == "undecided" and w.kind == "refuted"):
            first = w
    return first


@meth
def prove_shifted(self, a, b, c, what, depth):
    k = self.T.fresh("kc")
    kb = z3.simplify(k + c)
    ina = z3.And(k >= 0, k < a.n)
    inb = z3.And(kb >= 0, kb < b.n)
    # outside the common range both are empty
    for rng, items in ((z3.And(ina, z3.Not(inb)), self.subst_items(a.items, a.k, k)), (z3.And(inb, z3.Not(ina)), self.subst_items(b.items, b.k, kb))):
        with Scope(self, rng):
            if self.feasible():
                w = self.prove_empty(items, what)
                if w:
                    return w
    with Scope(self, ina, inb):
        if not self.feasible():
            return None
        return self.prove_items(self.subst_items(a.items, a.k, k), self.subst_items(b.items, b.k, kb), what, depth + 1)
