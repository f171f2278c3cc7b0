"""Logical terms: sorts, background theory (strings / utf-8), sums and folds,
and the solver interface (z3, with cvc5 as a second opinion on unknowns).

Theory of strings: an uninterpreted sort Str with length, code-point access,
substring and concatenation, axiomatised below (quantified axioms with
patterns; model-based instantiation off, so the solver either refutes the
negated goal, or saturates and answers sat/unknown = candidate counterexample).
"""
import time, hashlib
import z3

z3.set_param("smt.auto_config", False)
z3.set_param("smt.mbqi", False)
z3.set_param("smt.random_seed", 1)

Str = z3.DeclareSort("Str")
Opq = z3.DeclareSort("Opq")          # opaque values (toml dictionaries, ...)
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
BV8, BV32, BV64 = z3.BitVecSort(8), z3.BitVecSort(32), z3.BitVecSort(64)

slen = z3.Function("slen", Str, I)
code = z3.Function("code", Str, I, I)            # code point
ssub = z3.Function("ssub", Str, I, I, Str)        # substring(start, length)
scat = z3.Function("scat", Str, Str, Str)
blen = z3.Function("blen", Str, I)               # length of utf-8 encoding
boff = z3.Function("boff", Str, I, I)            # byte offset of character i
ubyte = z3.Function("ubyte", Str, I, BV8)        # i-th byte of utf-8 encoding
nchar = z3.Function("nchar", Str, I, I)          # characters starting before byte i
sqrt = z3.Function("sqrt", R, R)


def is_start(s, i):
    """byte i is not a continuation byte"""
    return (ubyte(s, i) & z3.BitVecVal(0xC0, 8)) != z3.BitVecVal(0x80, 8)


BIG = 1 << 62


_BVI = {w: z3.Function("bvint%d" % w, z3.BitVecSort(w), I) for w in (8, 16, 32, 64)}
_IBV = {w: z3.Function("intbv%d" % w, I, z3.BitVecSort(w)) for w in (8, 16, 32, 64)}


def bvint(v):
    """unsigned integer value of a bit-vector (kept symbolic; facts are instantiated per query)"""
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return iv(v.as_long())
    if z3.is_app(v) and v.decl().name().startswith("intbv") and False:
        return v.arg(0)
    return _BVI[v.sort().size()](v)


def intbv(t, w):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return z3.BitVecVal(t.as_long(), w)
    if z3.is_app(t) and t.decl().eq(_BVI[w]):
        return t.arg(0)
    return _IBV[w](t)


def bv_facts(terms):
    """range and basic order facts for bvint/intbv applications occurring in the terms"""
    out, seen = [], set()
    work = list(terms)
    names = {d.name() for d in _BVI.values()} | {d.name() for d in _IBV.values()}
    while work:
        t = work.pop()
        for a in apps_of(t, names):
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            x = a.arg(0)
            if a.sort() == I:
                w = x.sort().size()
                out.append(z3.And(a >= 0, a < 2 ** w))
                d = x.decl().kind() if z3.is_app(x) else None
                if d == z3.Z3_OP_BAND:
                    for c in x.children():
                        b = bvint(c)
                        out.append(a <= b)
                        work.append(b)
                elif d == z3.Z3_OP_BNOT and z3.is_app_of(x.arg(0), z3.Z3_OP_BOR):
                    # simplifier's form of a conjunction: ~(~p | ~q)
                    for c in x.arg(0).children():
                        b = bvint(z3.simplify(~c))
                        out.append(a <= b)
                        work.append(b)
                elif d == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0 and x.arg(1).sort().size() in _BVI:
                    b = bvint(x.arg(1))
                    out.append(a == b)
                    work.append(b)
                elif d == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
                    out.append(a < 2 ** (w - x.arg(0).sort().size()))
                elif z3.is_app(x) and x.decl().eq(_IBV[w]):
                    out.append(z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < 2 ** w), a == x.arg(0)))
            else:
                b = _BVI[a.sort().size()](a)
                work.append(b)
    return out


class Unsupported(Exception):
    """The code uses something the verifier has no rule for."""


def iv(x):
    return z3.IntVal(x)


def is_t(x):
    return z3.is_expr(x)


def sort_of(t):
    return t.sort()




def _q(vs, body, pats):
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])


_s, _a, _b = z3.Consts("qs qa qb", Str)
_i, _n, _k, _m, _j = z3.Ints("qi qn qk qm qj")


def string_axioms():
    inr = z3.And(_i >= 0, _n >= 0, _i + _n <= slen(_s))
    sub = ssub(_s, _i, _n)
    return [
        _q([_s], z3.And(slen(_s) >= 0, slen(_s) < BIG), [slen(_s)]),
        _q([_a, _b], z3.Implies(slen(_a) + slen(_b) < BIG // 4, slen(scat(_a, _b)) == slen(_a) + slen(_b)), [scat(_a, _b)]),
        _q([_s, _i, _n], z3.Implies(inr, slen(sub) == _n), [sub]),
        _q([_s, _i, _n, _k], z3.Implies(z3.And(inr, _k >= 0, _k < _n), code(sub, _k) == code(_s, _i + _k)), [code(sub, _k)]),
        _q([_s, _i, _n, _j, _m], z3.Implies(z3.And(inr, _j >= 0, _m >= 0, _j + _m <= _n), ssub(sub, _j, _m) == ssub(_s, _i + _j, _m)), [ssub(sub, _j, _m)]),
        _q([_s, _n], z3.Implies(_n == slen(_s), ssub(_s, 0, _n) == _s), [ssub(_s, 0, _n)]),
        _q([_s, _i], z3.And(code(_s, _i) >= 0, code(_s, _i) < 0x110000), [code(_s, _i)]),
        # utf-8
        _q([_s], z3.And(blen(_s) >= slen(_s), blen(_s) <= 4 * slen(_s), blen(_s) < BIG), [blen(_s)]),
        _q([_a, _b], z3.Implies(slen(_a) + slen(_b) < BIG // 4, blen(scat(_a, _b)) == blen(_a) + blen(_b)), [blen(scat(_a, _b))]),
        _q([_s, _i, _n], z3.Implies(inr, blen(sub) == boff(_s, _i + _n) - boff(_s, _i)), [blen(sub)]),
        _q([_s, _i, _n, _k], z3.Implies(z3.And(inr, _k >= 0, _k < blen(sub)), ubyte(sub, _k) == ubyte(_s, boff(_s, _i) + _k)), [ubyte(sub, _k)]),
        _q([_s, _i], z3.Implies(z3.And(_i >= 0, _i <= slen(_s)), z3.And(boff(_s, _i) >= _i, boff(_s, _i) <= blen(_s), blen(_s) - boff(_s, _i) >= slen(_s) - _i)), [boff(_s, _i)]),
        _q([_s, _i, _j], z3.Implies(z3.And(_i >= 0, _i < _j, _j <= slen(_s)), boff(_s, _j) - boff(_s, _i) >= _j - _i), [(boff(_s, _i), boff(_s, _j))]),
        _q([_s, _i], z3.Implies(_i == 0, boff(_s, _i) == 0), [boff(_s, _i)]),
        _q([_s, _i], z3.Implies(_i == slen(_s), boff(_s, _i) == blen(_s)), [boff(_s, _i)]),
        _q([_s, _i], z3.Implies(z3.And(_i >= 0, _i < slen(_s)), z3.And(is_start(_s, boff(_s, _i)), nchar(_s, boff(_s, _i)) == _i)), [boff(_s, _i)]),
    ]


def mentions(t, syms):
    """does the z3 term t contain one of the constants (by id)?"""
    ids = {s.get_id() for s in syms}
    if all(z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED for s in syms):
        return any(c.get_id() in ids for c in info(t)[1])
    return mentions_ids(t, ids)


def mentions_ids(t, ids, _memo=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        xid = x.get_id()
        if xid in seen:
            continue
        seen.add(xid)
        if xid in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


_INFO = {}      # id -> (term, constants, applications by name, mentions strings); the term is kept, so its id stays its own


def info(t):
    """(free constants, {function name: ground applications}, mentions strings) of a term"""
    r = _INFO.get(t.get_id())
    if r is not None:
        return r
    ctx = t.ctx.ref()
    seen, consts, apps, strs = set(), [], {}, False
    st = [(t, True)]
    while st:
        x, ground = st.pop()
        key = (x.get_id(), ground)
        if key in seen or (x.get_id(), True) in seen:
            continue
        seen.add(key)
        if z3.is_quantifier(x):
            st.append((x.body(), False))
            continue
        if not strs and x.sort() == Str:
            strs = True
        if not z3.is_app(x):
            continue
        n = x.num_args()
        if n == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                consts.append(x)
            continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if nm in _STRF:
                strs = True
            if ground:
                apps.setdefault(nm, []).append(x)
        for i in range(n):
            st.append((x.arg(i), ground))
    uniq = {c.get_id(): c for c in consts}
    r = _INFO[t.get_id()] = (t, sorted(uniq.values(), key=str), apps, strs)
    return r


_STRF = ("slen", "blen", "code", "boff", "ubyte")


def free_consts(t):
    return list(info(t)[1])


def apps_of(t, names):
    ap = info(t)[2]
    out = []
    for n in (names if len(names) < len(ap) else ap):
        if n in names and n in ap:
            out += ap[n]
    return out


class Binder:
    """Registry entry of a defined binder function (Sum / Fold / Exists...)."""
    __slots__ = ("kind", "decl", "params", "k", "n", "acc", "body", "name", "extra")


class Terms:
    """Per-run term factory: fresh names, literals, sum/fold registry."""

    def __init__(self):
        self.reg = {}        # key -> Binder
        self.byname = {}
        self.lits = {}       # python str -> term
        self.cnt = 0
        self.facts0 = []     # definitional facts that always hold (literal lengths)

    def fresh(self, hint, sort=I):
        self.cnt += 1
        return z3.Const("%s!%d" % (hint, self.cnt), sort)

    def reset_counter(self, v=0):
        self.cnt = v

    # strings ---------------------------------------------------------
    def lit(self, s):
        t = self.lits.get(s)
        if t is None:
            t = z3.Const("lit:%d:%s" % (len(self.lits), s[:20]), Str)
            self.lits[s] = t
        return t

    def lit_facts(self, used=None):
        out = []
        ls = [(s, t) for s, t in self.lits.items() if used is None or t.get_id() in used]
        for s, t in ls:
            out.append(slen(t) == len(s))
            try:
                out.append(blen(t) == len(s.encode("utf-8")))
                if len(s) <= 8:
                    for i, b in enumerate(s.encode("utf-8")):
                        out.append(ubyte(t, i) == b)
            except UnicodeEncodeError:
                pass
            if len(s) <= 8:
                for i, c in enumerate(s):
                    out.append(code(t, i) == ord(c))
        if len(ls) > 1:
            out.append(z3.Distinct(*[t for _, t in ls]))
        return out

    # sums and folds ----------------------------------------------------
    def _define(self, kind, k, n, body, init=None, acc=None):
        """body: term over k (and acc); returns application term with free
        constants of the body (other than k, acc) as parameters."""
        body = z3.simplify(body)
        fc = [c for c in free_consts(body) if not (c.eq(k) or (acc is not None and c.eq(acc))) and not c.decl().name().startswith("lit:")]
        ps = [z3.Const("p%d" % i, c.sort()) for i, c in enumerate(fc)]
        kk = z3.Const("bk", I)
        sub = [(k, kk)] + list(zip(fc, ps))
        if acc is not None:
            aa = z3.Const("bacc", acc.sort())
            sub.append((acc, aa))
        cb = z3.substitute(body, *sub)
        rs = body.sort()
        key = (kind, cb.sexpr(), tuple(str(p.sort()) for p in ps), str(rs))
        b = self.reg.get(key)
        if b is None:
            b = Binder()
            b.kind = kind
            b.name = "%s!%d" % (kind, len(self.reg))
            dom = [I] + ([rs] if kind == "Fold" else []) + [p.sort() for p in ps]
            b.decl = z3.Function(b.name, *dom, rs)
            b.params, b.k, b.body, b.acc = ps, kk, cb, (aa if acc is not None else None)
            self.reg[key] = b
            self.byname[b.name] = b
        args = [n] + ([init] if kind == "Fold" else []) + fc
        return b.decl(*args)

    def sum(self, k, n, body):
        """Sum_{0<=k<n} body(k); linear normal form."""
        body = z3.simplify(body, som=False)
        if body.sort() == B:
            body = z3.If(body, iv(1), iv(0))
        zero = z3.IntVal(0) if body.sort() == I else z3.RealVal(0)
        if not mentions(body, [k]):
            nn = n if body.sort() == I else z3.ToReal(n)
            nn = z3.If(n > 0, nn, zero)
            return z3.simplify(nn * body) if z3.is_int_value(body) or z3.is_rational_value(body) else nn * body
        if z3.is_add(body):
            r = None
            for c in body.children():
                t = self.sum(k, n, c)
                r = t if r is None else r + t
            return r
        if z3.is_mul(body):
            ind = [c for c in body.children() if not mentions(c, [k])]
            dep = [c for c in body.children() if mentions(c, [k])]
            if ind and dep:
                p = dep[0]
                for d in dep[1:]:
                    p = p * d
                r = self.sum(k, n, p)
                for c in ind:
                    r = c * r
                return r
        return self._define("Sum", k, n, body)

    def fold(self, k, n, acc, init, body):
        return self._define("Fold", k, n, body, init=init, acc=acc)

    def binder_facts(self, terms):
        """Definitional instances for sums/folds occurring in the terms:
        empty range, non-negativity of integer sums with provably
        non-negative bodies is left to lemmas."""
        out = []
        seen = set()
        mono = {}
        names = set(self.byname)
        for t in terms:
            for a in apps_of(t, names):
                if a.get_id() in seen:
                    continue
                seen.add(a.get_id())
                b = self.byname[a.decl().name()]
                n = a.arg(0)
                if b.kind == "Sum":
                    z = z3.IntVal(0) if a.sort() == I else z3.RealVal(0)
                    out.append(z3.Implies(n <= 0, a == z))
                    ps = [a.arg(i + 1) for i in range(len(b.params))]
                    last = z3.substitute(b.body, (b.k, n - 1), *zip(b.params, ps))
                    prev = b.decl(n - 1, *ps)
                    out.append(z3.Implies(n > 0, a == prev + last))
                    if z3.is_app_of(b.body, z3.Z3_OP_ITE) and all(z3.is_int_value(x) and x.as_long() in (0, 1) for x in b.body.children()[1:]):
                        out.append(z3.And(a >= 0, z3.Implies(n >= 0, a <= n)))
                    elif nonneg(b.body):
                        # lemmas: sums of non-negative terms are non-negative and monotone
                        out.append(a >= 0)
                        for m, ps2 in mono.get(b.name, ()):
                            if all(x.eq(y) for x, y in zip(ps, ps2)):
                                for lo, hi in ((m, n), (n, m)):
                                    at = z3.substitute(b.body, (b.k, lo), *zip(b.params, ps))
                                    out.append(z3.Implies(z3.And(lo >= 0, lo < hi), b.decl(lo, *ps) + at <= b.decl(hi, *ps)))
                        mono.setdefault(b.name, []).append((n, ps))
                elif b.kind == "Fold":
                    out.append(z3.Implies(n <= 0, a == a.arg(1)))
        return out

    def same_app(self, x, y):
        return x.decl().eq(y.decl())

    def open(self, a, kval):
        """body of the Sum application a at index kval"""
        b = self.byname[a.decl().name()]
        off = 1 if b.kind == "Sum" else 2
        ps = [a.arg(i + off) for i in range(len(b.params))]
        return z3.substitute(b.body, (b.k, kval), *zip(b.params, ps))


def nonneg(t):
    """syntactically non-negative integer term"""
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if z3.is_app(t):
        if t.decl().name() in ("blen", "slen", "declen"):
            return True
        if z3.is_add(t) or z3.is_mul(t):
            return all(nonneg(c) for c in t.children())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return nonneg(t.arg(1)) and nonneg(t.arg(2))
    return False


class Solver:
    """Discharges entailments; keeps statistics and a cache keyed by formula text."""

    def __init__(self, terms, timeout_ms=8000):
        self.T = terms
        self.timeout = timeout_ms
        self.cache = {}
        self.stats = {"queries": 0, "cache_hits": 0, "seconds": 0.0, "z3": 0, "cvc5": 0, "unknown": 0}
        self.axioms = string_axioms()

    def _needs_str(self, fs):
        return any(info(f)[3] for f in fs)

    def relevant_lits(self, fs):
        used = set()
        for f in fs:
            for c in free_consts(f):
                used.add(c.get_id())
        return self.T.lit_facts(used)

    def check(self, fs, timeout=None, want_model=False):
        """'unsat' | 'sat' | 'incomplete' | 'unknown' (timeout)"""
        fs = [f for f in fs if not z3.is_true(f)]
        key = tuple(sorted(info(f)[0].get_id() for f in fs))      # terms are shared: one term, one id
        if not want_model and key in self.cache:
            self.stats["cache_hits"] += 1
            return self.cache[key]
        t0 = time.time()
        s = z3.SolverFor("AUFLIA") if False else z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.set("auto_config", False)
        s.set("mbqi", False)
        bf = self.T.binder_facts(fs)
        allf = fs + bf
        allf = allf + bv_facts(allf)
        if self._needs_str(allf):
            for a in self.axioms:
                s.add(a)
            for f in self.relevant_lits(allf):
                s.add(f)
        for f in allf:
            s.add(f)
        r = s.check()
        self.stats["queries"] += 1
        self.stats["z3"] += 1
        if r == z3.unsat:
            res = "unsat"
        elif r == z3.sat:
            res = "sat"
        else:
            why = s.reason_unknown()
            res = "incomplete" if "incomplete" in why or "quantif" in why else "unknown"
        if res == "unknown":
            res = self._second(s, res)
        dt = time.time() - t0
        self.stats["seconds"] += dt
        if res == "unknown":
            self.stats["unknown"] += 1
        self.cache[key] = res
        if want_model:
            m = None
            try:
                m = s.model()
            except z3.Z3Exception:
                pass
            return res, m
        return res

    def second_opinion(self, fs, res):
        s = z3.Solver()
        bf = self.T.binder_facts(fs)
        allf = list(fs) + bf
        allf = allf + bv_facts(allf)
        if self._needs_str(allf):
            for a in self.axioms:
                s.add(a)
            for f in self.relevant_lits(allf):
                s.add(f)
        for f in allf:
            s.add(f)
        return self._second(s, res, ["--full-saturate-quant"])

    def _second(self, s, res, opts=()):
        """second back end for queries on which z3 times out"""
        import subprocess, tempfile, os
        smt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(smt)
            p = f.name
        try:
            r = subprocess.run(["cvc5", "--tlimit=8000", "--lang=smt2", *opts, p], capture_output=True, text=True, timeout=12)
            out = r.stdout.strip().splitlines()
            if out and out[-1] == "unsat":
                self.stats["cvc5"] += 1
                return "unsat"
        except Exception:
            pass
        finally:
            os.unlink(p)
        return res
