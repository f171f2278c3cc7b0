"""numpy arrays.

The content of an n-dimensional buffer is a z3 term over the index placeholders
ax0, ax1, ... (AData); floats are mathematical reals.  A `Buf` is the mutable
memory, an `Arr` a view of it: per buffer dimension an index `t` (fixed) or
`t + ax_j` (following view axis j).  Views share the buffer, so writes through
one view are seen by all.  The functions below are the assumed contracts of the
numpy operations the code uses.
"""
import z3
from terms import *
from values import *
from interp2 import meth
from builtins_ import ASSUMED, Opaque
import prove
from prove import Why, Scope
import files

AX = [z3.Const("ax%d" % i, I) for i in range(5)]
SZ = {"float32": (4, "f"), "float64": (8, "f"), "uint8": (1, "u"), "int64": (8, "i"), "int32": (4, "i"), "uint32": (4, "u"), "uint64": (8, "u"), "bool": (1, "b"), "float16": (2, "f"), "int8": (1, "i")}
SHORT = {"f4": "float32", "f8": "float64", "u1": "uint8", "i8": "int64", "i4": "int32", "u4": "uint32", "u8": "uint64", "f": "float32", "d": "float64", "float": "float64", "int": "int64", "B": "uint8", "single": "float32", "double": "float64", "f2": "float16", "i1": "int8"}
ASSUMPTION = "floating-point arithmetic is treated as real arithmetic (no rounding, overflow or NaN)"
sqrtR = z3.Function("sqrtR", R, R)


def sort_of_dt(name):
    return R if SZ[name][1] == "f" else B if name == "bool" else I


class DType:
    __slots__ = ("name", "bo")

    def __init__(self, name, bo="="):
        if bo == "<":
            bo = "="
        if SZ[name][0] == 1:
            bo = "|"
        self.name, self.bo = name, bo

    cls = None

    def attr(self, eng, n):
        if n == "byteorder":
            return self.bo
        if n == "name":
            return self.name
        if n == "itemsize":
            return SZ[self.name][0]
        if n == "kind":
            return SZ[self.name][1]
        if n == "str":
            return {"=": "<", "|": "|", ">": ">"}[self.bo] + SZ[self.name][1] + str(SZ[self.name][0])
        if n == "isnative":
            return self.bo != ">"
        if n == "newbyteorder":
            def nb(e, a, k):
                o = a[0] if a else "S"
                if o in ("S", "swap"):
                    o = "<" if self.bo == ">" else ">"
                return DType(self.name, {"little": "<", "L": "<", "big": ">", "B": ">", "N": "=", "native": "="}.get(o, o))
            return BI("newbyteorder", nb)
        if n == "type":
            return NpType(self.name)
        raise Unsupported("dtype.%s" % n)

    def equal(self, eng, o):
        d = to_dtype(eng, o, False)
        return d is not None and d.name == self.name and d.bo == self.bo

    def isinst(self, eng, t):
        return t is eng.B["object"]

    def to_str(self, eng):
        return self.name

    def __repr__(self):
        return self.name


class NpType:
    """numpy scalar type object"""
    cls = None

    def __init__(self, name):
        self.name = name

    def call(self, eng, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, Arr):
            return v.astype(eng, DType(self.name))
        return scalar(eng, v, self.name)

    def equal(self, eng, o):
        if isinstance(o, NpType):
            return o.name == self.name
        if isinstance(o, DType):
            return o.equal(eng, self)
        return NotImplemented

    def attr(self, eng, n):
        if n == "__name__":
            return self.name
        if n == "itemsize":
            return SZ[self.name][0]
        raise Unsupported("numpy type attribute " + n)


class AbsType:
    """abstract numpy scalar type (np.floating, ...)"""
    cls = None

    def __init__(self, kinds):
        self.kinds = kinds


def to_dtype(eng, v, required=True):
    if isinstance(v, DType):
        return v
    if isinstance(v, NpType):
        return DType(v.name)
    if isinstance(v, str):
        bo, s = "=", v
        if s and s[0] in "<>=|":
            bo, s = s[0], s[1:]
        s = SHORT.get(s, s)
        if s in SZ:
            return DType(s, bo)
    if v is eng.B["float"]:
        return DType("float64")
    if v is eng.B["int"]:
        return DType("int64")
    if v is eng.B["bool"]:
        return DType("bool")
    if required:
        raise Unsupported("dtype %r" % (v,))
    return None


def scalar(eng, v, dt):
    """value converted to an element of the dtype"""
    s = sort_of_dt(dt)
    if s == R:
        ASSUMED.add(ASSUMPTION)
        h = getattr(v, "to_float", None)
        if h is not None:
            v = h(eng)
        if isinstance(v, str):
            try:
                v = float(v)
            except ValueError:
                eng.raise_("ValueError", "could not convert string to float")
        if isinstance(v, FStr):
            if len(v.pieces) == 1 and (eng.is_int(v.pieces[0]) or is_t(v.pieces[0]) and v.pieces[0].sort() == R):
                ASSUMED.add("parsing the text str() gives for a number gives that number back")
                v = v.pieces[0]
            else:
                raise Unsupported("number from text")
        return eng.real_t(v)
    if s == B:
        t = eng.truth_t(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t
    if not eng.is_int(v):
        raise Unsupported("conversion to an integer element")
    t = eng.int_t(v)
    if dt == "uint8" and not eng.entails(z3.And(t >= 0, t < 256)):
        raise Unsupported("conversion to uint8")
    return t


def prod(ts):
    r = iv(1)
    for t in ts:
        r = t if z3.is_int_value(r) and r.as_long() == 1 else r * t
    return z3.simplify(r)


class AData:
    """immutable content"""
    __slots__ = ("shape", "dt", "base", "writes", "parts", "origin", "_body")

    def __init__(self, shape, dt, base, writes=(), parts=None, origin=None):
        self.shape, self.dt, self.base, self.writes, self.parts, self.origin = tuple(shape), dt, base, tuple(writes), parts, origin
        self._body = None

    cls = None

    def body(self):
        if self._body is None:
            b = self.base
            for reg, v in self.writes:
                c = region_cond(reg)
                b = v if z3.is_true(c) else z3.If(c, v, b)
            self._body = b
        return self._body

    def at(self, *idx):
        return z3.substitute(self.body(), *zip(AX, idx)) if idx else self.body()

    def size(self, eng):
        return prod(self.shape)

    def itemsize(self):
        return SZ[self.dt][0]

    def terms(self, eng):
        return self.shape + (self.body(),)

    def index_terms(self):
        return []

    def subst(self, eng, sub):
        s = lambda t: z3.substitute(t, *sub)
        return AData([s(t) for t in self.shape], self.dt, s(self.base), [(tuple((r[0],) + tuple(s(x) for x in r[1:]) for r in reg), s(v)) for reg, v in self.writes],
                     None if self.parts is None else [(s(n), s(b)) for n, b in self.parts], None if self.origin is None else self.origin.subst(eng, sub))

    def prove_eq(self, eng, o, what):
        if not isinstance(o, AData):
            return NotImplemented
        if o is self:
            return None
        if o.dt != self.dt:
            return Why("refuted", "%s: element types %s / %s" % (what, self.dt, o.dt))
        a, b = self, o
        if len(a.shape) != len(b.shape):
            # the same bytes: compare the flat forms through the original shape
            if a.origin is not None and len(a.origin.shape) == len(b.shape):
                a = a.origin
            elif b.origin is not None and len(b.origin.shape) == len(a.shape):
                b = b.origin
            else:
                return Why("undecided", "%s: arrays of %d and %d dimensions" % (what, len(a.shape), len(b.shape)))
        for d, (x, y) in enumerate(zip(a.shape, b.shape)):
            if x.eq(y):
                continue
            w = eng.goal(x == y, "%s: extent of axis %d" % (what, d))
            if w:
                return w
        idx = [eng.T.fresh("e") for _ in a.shape]
        with Scope(eng, *[z3.And(i >= 0, i < n) for i, n in zip(idx, a.shape)]):
            return prove_term(eng, a.at(*idx), b.at(*idx), what + " element")

    def __repr__(self):
        return "AData(%s, %s)" % (self.shape, self.dt)


def prove_term(eng, x, y, what, depth=0):
    """x == y, splitting conditionals over the same test and cases"""
    x, y = z3.simplify(x), z3.simplify(y)
    if x.eq(y):
        return None
    for t in (x, y):
        c = first_ite(t)
        if c is not None and depth < 6:
            for f in (c, z3.Not(c)):
                f = z3.simplify(f)
                if eng.entails(z3.Not(f)):
                    continue
                with Scope(eng, f):
                    v = z3.BoolVal(True) if f.eq(c) else z3.BoolVal(False)
                    w = prove_term(eng, z3.substitute(x, (c, v)), z3.substitute(y, (c, v)), what, depth + 1)
                    if w:
                        return w
            return None
    return eng.goal(x == y, what)


def first_ite(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort() != B:
            return x.arg(0)
        st.extend(x.children())
    return None


def region_cond(reg):
    cs = []
    for d, r in enumerate(reg):
        if r[0] == "fix":
            cs.append(AX[d] == r[1])
        elif r[0] == "rng":
            cs += [AX[d] >= r[1], AX[d] < r[1] + r[2]]
    return z3.And(*cs) if len(cs) > 1 else cs[0] if cs else z3.BoolVal(True)


class Buf(Mut):
    """array memory; c: AData"""
    __slots__ = ("moved", "frozen", "corder")

    def __init__(self, eng, c):
        Mut.__init__(self, eng, c)
        self.moved = False
        self.frozen = False
        self.corder = False         # known to be laid out in C order

    # ------------------------------------------------------------- loops
    def generic(self, eng, k, n):
        pre = self.c
        eng.T.cnt += 1
        s = sort_of_dt(pre.dt)
        g = z3.Function("buf!%d" % eng.T.cnt, I, *([I] * len(pre.shape)), s)
        self.c = AData(pre.shape, pre.dt, g(k, *AX[:len(pre.shape)]))
        return ("buf", pre, g)

    def effects(self, c):
        return tuple(x for reg, v in c.writes for x in [v] + [t for r in reg for t in r[1:]])

    def finish(self, eng, pre, g, k, upto, nexts, fin, fint):
        nd = len(pre.shape)
        alts = []
        for p in nexts:
            c = p.state.get(self)
            if c is None:
                continue
            if not (z3.is_app(c.base) and c.base.decl().eq(g)):
                raise Unsupported("loop rewrites a whole array")
            rows = []
            for reg, v in c.writes:
                if reg[0][0] != "fix" or any(r[0] != "all" for r in reg[1:]):
                    raise Unsupported("loop writes a part of an array that is not a row")
                rows.append((fint(reg[0][1]), fint(v)))
            a = rows[0][0]
            if any(not z3.simplify(r[0] - a == 0).eq(z3.BoolVal(True)) for r in rows[1:]):
                raise Unsupported("loop writes several rows per iteration")
            cd = fint(z3.And(*p.conds)) if p.conds else z3.BoolVal(True)
            v = rows[-1][1]
            alts.append((z3.simplify(cd), a, v, p))
        if not alts:
            self.c = pre
            return
        if len(alts) == len(nexts):
            written = z3.BoolVal(True)
        else:
            written = z3.simplify(z3.Or(*[x[0] for x in alts]))
        a = eng.ite_chain([(x[0], x[1]) for x in alts]) if any(not z3.simplify(x[1] == alts[0][1]).eq(z3.BoolVal(True)) for x in alts) else alts[0][1]
        a = z3.simplify(a)
        # reads of the array inside the loop: rows not written so far hold the initial content
        vals = []
        for cd, _, v, p in alts:
            facts = [z3.And(k >= 0, k < upto), cd] + [fint(f) for f in p.facts]
            with Scope(eng, *facts):
                vals.append((cd, self.resolve(eng, v, g, k, pre, a, written)))
        v = eng.ite_chain(vals)
        c = z3.simplify(a - k)
        body = pre.body()
        if z3.is_true(written) and not mentions(c, [k]):
            val = z3.substitute(v, (k, AX[0] - c))
            if eng.entails(z3.And(c == 0, upto == pre.shape[0])):
                self.c = AData(pre.shape, pre.dt, z3.simplify(val))
            else:
                self.c = AData(pre.shape, pre.dt, z3.If(z3.And(AX[0] >= c, AX[0] < c + upto), val, body))
            return
        eng.T.cnt += 1
        lw = z3.Function("lastw!%d" % eng.T.cnt, I, I)
        q, r = z3.Const("q_w", I), z3.Const("q_r", I)
        aq, wq = z3.substitute(a, (k, q)), z3.substitute(written, (k, q))
        f = z3.Implies(z3.And(q >= 0, q < upto, wq), z3.And(lw(aq) >= q, lw(aq) < upto))
        pats = eng.patterns(z3.And(aq == 0, wq), q)
        eng.assume(z3.ForAll([q], f, patterns=pats) if pats else z3.ForAll([q], f))
        at = lambda t: z3.substitute(t, (k, lw(r)))
        eng.assume(z3.ForAll([r], z3.Implies(lw(r) >= 0, z3.And(lw(r) < upto, at(written), at(a) == r)), patterns=[lw(r)]))
        self.c = AData(pre.shape, pre.dt, z3.If(lw(AX[0]) >= 0, z3.substitute(v, (k, lw(AX[0]))), body))

    def resolve(self, eng, t, g, k, pre, a, written):
        """replaces reads g(k, r, ...) of rows that no earlier iteration wrote by the initial content"""
        memo = {}

        def rec(t):
            if t.get_id() in memo:
                return memo[t.get_id()][1]
            r = t
            if z3.is_app(t) and t.num_args():
                nm = t.decl().name()
                if t.decl().eq(g):
                    args = [rec(x) for x in t.children()]
                    row = args[1]
                    j = eng.T.fresh("j")
                    with Scope(eng, j >= 0, j < k):
                        hit = z3.And(z3.substitute(written, (k, j)), z3.substitute(a, (k, j)) == row)
                        ok = args[0].eq(k) and eng.entails(z3.Not(hit))
                    r = pre.at(*args[1:]) if ok else g(*args)
                elif nm in eng.T.byname:
                    b = eng.T.byname[nm]
                    args = [rec(x) for x in t.children()]
                    t2 = t.decl()(*args)
                    if b.kind == "Sum" and mentions_decl(b.body, g):
                        m = eng.T.fresh("m")
                        with Scope(eng, m >= 0, m < args[0]):
                            r = eng.T.sum(m, args[0], rec(eng.T.open(t2, m)))
                    else:
                        r = t2
                else:
                    ch = t.children()
                    n2 = [rec(x) for x in ch]
                    if any(not x.eq(y) for x, y in zip(ch, n2)):
                        r = t.decl()(*n2)
            memo[t.get_id()] = (t, r)
            return r
        return rec(z3.simplify(t))


def mentions_decl(t, d):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(d):
            return True
        st.extend(x.children())
    return False


class Arr:
    """array object: a view of a buffer"""
    __slots__ = ("buf", "map", "vshape", "bo", "mem", "cls_")

    def __init__(self, buf, map_, shape, cls, bo="=", mem=None):
        self.buf, self.map, self.vshape, self.cls_, self.bo = buf, tuple(map_), tuple(shape), cls, bo
        self.mem = mem or bo

    @property
    def cls(self):
        return self.cls_

    @property
    def dt(self):
        return self.buf.c.dt

    # ------------------------------------------------------------ access
    def live(self):
        if self.buf.moved:
            raise Unsupported("array used after its memory was taken over by reshape")

    def data(self):
        """content of the view"""
        self.live()
        c = self.buf.c
        if self.whole():
            return c
        m = [t if j is None else (AX[j] if z3.is_int_value(t) and t.as_long() == 0 else t + AX[j]) for t, j in self.map]
        return AData(self.vshape, c.dt, z3.substitute(c.body(), *zip(AX, m)) if m else c.body())

    def whole(self):
        return len(self.vshape) == len(self.map) and all(j == d and z3.is_int_value(t) and t.as_long() == 0 for d, (t, j) in enumerate(self.map)) and all(x.eq(y) for x, y in zip(self.vshape, self.buf.c.shape))

    def values(self):
        if self.mem != self.bo and not (self.mem in "=|" and self.bo in "=|"):
            raise Unsupported("element access after byteswap")
        return self.data()

    def size_t(self):
        return prod(self.vshape)

    def with_(self, **kw):
        a = Arr(self.buf, self.map, self.vshape, self.cls_, self.bo, self.mem)
        for n, v in kw.items():
            setattr(a, n, v)
        return a

    def terms(self, eng):
        return tuple(self.vshape) + tuple(t for t, _ in self.map) + self.buf.c.terms(eng)

    def subst(self, eng, sub):
        ids = [a for a, _ in sub]
        buf = self.buf
        if any(mentions(t, ids) for t in buf.c.terms(eng)):
            buf = Buf(eng, buf.c.subst(eng, sub))
        s = lambda t: z3.substitute(t, *sub)
        return Arr(buf, [(s(t), j) for t, j in self.map], [s(t) for t in self.vshape], self.cls_, self.bo, self.mem)

    def index_terms(self):
        return []

    def length(self, eng):
        if not self.vshape:
            eng.raise_("TypeError", "len() of unsized object")
        return self.vshape[0]

    def truth(self, eng):
        if len(self.vshape) == 0:
            return eng.truth_t(self.data().body())
        raise Unsupported("truth of an array")

    def is_none(self, eng):
        return False

    def same_object(self, o):
        return self is o

    def isinst(self, eng, t):
        return t in self.cls_.mro

    def prove_eq(self, eng, o, what):
        if not isinstance(o, Arr):
            return NotImplemented
        if o is self:
            return None
        return self.values().prove_eq(eng, o.values(), what)

    def attr(self, eng, name):
        if name == "__class__":
            return self.cls_
        v, owner = self.cls_.lookup(name)
        if v is None:
            if owner is None and name.startswith("__"):
                eng.raise_("AttributeError", name)
            raise Unsupported("ndarray.%s" % name)
        return eng.bind_attr(v, self, self.cls_)

    def iter_items(self, eng):
        m, owner = self.cls_.lookup("__iter__")
        if isinstance(m, Fn):
            return eng.items_of(eng.call(m, [self], {}))
        if not self.vshape:
            eng.raise_("TypeError", "iteration over a 0-d array")
        k = eng.T.fresh("k")
        n = self.vshape[0]
        g, _ = self.cls_.lookup("__getitem__")
        if isinstance(g, Fn):
            acc = Lst(eng, ())

            def body(i):
                acc.c = acc.c + (E(eng.call(g, [self, i], {})),)
            eng.iterate(eng.range_items(Rng(0, n, 1)), body)
            return acc.c
        if z3.is_int_value(n) and n.as_long() <= 40:
            return tuple(E(self.row(eng, iv(i))) for i in range(n.as_long()))
        return (For(k, n, [E(self.row(eng, k))]),)

    def row(self, eng, t):
        """self[t] for an index in range"""
        m = [(z3.simplify(x + t), None) if j == 0 else (x, j if j is None else j - 1) for x, j in self.map]
        sh = self.vshape[1:]
        if not sh:
            return self.elem(eng, self.values().at(t))
        return Arr(self.buf, m, sh, self.cls_, self.bo, self.mem)

    def elem(self, eng, t):
        t = z3.simplify(t)
        return eng.norm(t) if t.sort() == I else t

    # ---------------------------------------------------------- indexing
    def getitem(self, eng, key):
        self.live()
        ks = list(key) if isinstance(key, tuple) else [key]
        ks = [scalar_key(eng, x) for x in ks]
        if any(isinstance(x, (Lst, Arr, Seq, Rng)) for x in ks):
            return self.fancy(eng, ks)
        if any(isinstance(x, tuple) for x in ks):
            raise Unsupported("nested tuple index")
        if any(x is Ellipsis for x in ks):
            i = [x is Ellipsis for x in ks].index(True)
            n = len(self.vshape) - sum(1 for x in ks if x is not None and x is not Ellipsis)
            ks[i:i + 1] = [Sl(None, None, None)] * n
        return self.basic(eng, ks)

    def basic(self, eng, ks):
        m = list(self.map)
        newshape = []
        ax = 0
        ren = {}
        for x in ks:
            if x is None:
                newshape.append(iv(1))
                continue
            if ax >= len(self.vshape):
                eng.raise_("IndexError", "too many indices for array")
            n = self.vshape[ax]
            if isinstance(x, Sl):
                lo, hi = eng.slice_bounds(x, n)
                ln = z3.simplify(hi - lo)
                if not eng.entails(ln >= 0):
                    ln = z3.simplify(z3.If(hi > lo, hi - lo, iv(0)))
                ren[ax] = (lo, len(newshape))
                newshape.append(ln)
            elif eng.is_int(x):
                ren[ax] = (eng.idx_norm(x, n), None)
            else:
                raise Unsupported("array index %s" % type(x).__name__)
            ax += 1
        while ax < len(self.vshape):
            ren[ax] = (iv(0), len(newshape))
            newshape.append(self.vshape[ax])
            ax += 1
        m2 = []
        for t, j in m:
            if j is None:
                m2.append((t, None))
            else:
                o, nj = ren[j]
                m2.append((z3.simplify(t + o), nj))
        if not newshape:
            r = Arr(self.buf, m2, (), self.cls_, self.bo, self.mem)
            return self.elem(eng, r.values().body())
        return Arr(self.buf, m2, newshape, self.cls_, self.bo, self.mem)

    def fancy(self, eng, ks):
        """advanced indexing: a copy"""
        d = self.values()
        adv = [(i, x) for i, x in enumerate(ks) if isinstance(x, (Lst, Arr, Seq, Rng))]
        if any(eng.is_int(x) for x in ks if not isinstance(x, (Lst, Arr, Seq, Rng)) and x is not None and not isinstance(x, Sl)):
            raise Unsupported("mixed integer and array index")
        pos = [i for i, _ in adv]
        if pos != list(range(pos[0], pos[0] + len(pos))):
            raise Unsupported("non-adjacent array indices")
        # axis each key applies to
        axes, ax = [], 0
        for x in ks:
            axes.append(ax)
            if x is not None:
                ax += 1
        if ax > len(self.vshape):
            eng.raise_("IndexError", "too many indices for array")
        ix = [index_data(eng, x) for _, x in adv]
        bsh = broadcast_shapes(eng, [i.shape for i in ix])
        exprs = {}
        nb = len(bsh)
        outshape, place = [], {}
        newax = 0
        for i, x in enumerate(ks):
            if x is None:
                outshape.append(iv(1))
            elif isinstance(x, Sl):
                lo, hi = eng.slice_bounds(x, self.vshape[axes[i]])
                place[axes[i]] = ("sl", lo, len(outshape))
                ln = z3.simplify(hi - lo)
                outshape.append(ln if eng.entails(ln >= 0) else z3.simplify(z3.If(hi > lo, hi - lo, iv(0))))
            elif i == pos[0]:
                boff = len(outshape)
                outshape.extend(bsh)
        for d2 in range(ax, len(self.vshape)):
            place[d2] = ("sl", iv(0), len(outshape))
            outshape.append(self.vshape[d2])
        parts = None
        for (i, x), dat in zip(adv, ix):
            t = bcast_body(eng, dat, bsh)
            n = self.vshape[axes[i]]
            t = check_bounds(eng, t, bsh, n, dat)
            exprs[axes[i]] = z3.substitute(t, *[(AX[q], AX[boff + q]) for q in range(nb)]) if boff else t
            if len(adv) == 1 and dat.parts is not None and pos[0] == 0 and nb == 1 and boff == 0:
                parts = [(pn, wrap_neg(eng, pb, pn, n)) for pn, pb in dat.parts]
        sub = []
        for d2 in range(len(self.vshape)):
            if d2 in exprs:
                sub.append((AX[d2], exprs[d2]))
            else:
                _, lo, j = place[d2]
                sub.append((AX[d2], AX[j] if z3.is_int_value(lo) and lo.as_long() == 0 else lo + AX[j]))
        body = z3.substitute(d.body(), *sub)
        pp = None
        if parts is not None:
            pp = []
            for pn, pb in parts:
                s2 = [(a, pb if a.eq(AX[axes[adv[0][0]]]) else b) for a, b in sub]
                pp.append((pn, z3.substitute(d.body(), *s2)))
        return Arr(Buf(eng, AData(outshape, d.dt, body, parts=pp)), [(iv(0), j) for j in range(len(outshape))], outshape, self.cls_, "=" if self.bo != ">" else ">")

    def view_of(self, eng, key):
        """the view selected by a basic index, for assignment"""
        ks = [scalar_key(eng, x) for x in (list(key) if isinstance(key, tuple) else [key])]
        if any(isinstance(x, (Lst, Arr, Seq, Rng, tuple)) for x in ks):
            raise Unsupported("assignment through an array index")
        if any(x is Ellipsis for x in ks):
            i = [x is Ellipsis for x in ks].index(True)
            n = len(self.vshape) - sum(1 for x in ks if x is not None and x is not Ellipsis)
            ks[i:i + 1] = [Sl(None, None, None)] * n
        if all(eng.is_int(x) for x in ks) and len(ks) == len(self.vshape):
            m = {}
            for ax, x in enumerate(ks):
                m[ax] = eng.idx_norm(x, self.vshape[ax])
            return Arr(self.buf, [(t if j is None else z3.simplify(t + m[j]), None) for t, j in self.map], (), self.cls_, self.bo, self.mem)
        return self.basic(eng, ks)

    def setitem(self, eng, key, v):
        m, owner = self.cls_.lookup("__setitem__")
        if isinstance(m, Fn):
            return eng.call(m, [self, key, v], {})
        self.view_of(eng, key).assign(eng, v)

    def assign(self, eng, v):
        """self[...] = v"""
        self.live()
        if self.mem != self.bo:
            raise Unsupported("assignment after byteswap")
        if self.buf.frozen:
            eng.raise_("ValueError", "assignment destination is read-only")
        dt = self.dt
        if isinstance(v, (Lst, tuple, Seq)) or not isinstance(v, Arr) and (isinstance(v, Obj) and v.cls.lookup("__array__")[0] is not None):
            v = asarray(eng, v, DType(dt))
        if isinstance(v, Arr):
            d = v.values()
            if len(d.shape) > len(self.vshape):
                # leading extents of one may be dropped
                raise Unsupported("assignment of an array with more dimensions")
            full = broadcast_to(eng, d, self.vshape)
            val = convert(eng, full, d.dt, dt)
        else:
            val = scalar(eng, v, dt)
        self.store(eng, val)

    def store(self, eng, val):
        """val: term over the view's axes"""
        c = self.buf.c
        reg, sub = [], []
        used = set()
        for d, (t, j) in enumerate(self.map):
            n = c.shape[d]
            if j is None:
                if z3.is_int_value(n) and n.as_long() == 1 or n.eq(iv(1)):
                    reg.append(("all",))
                else:
                    reg.append(("fix", t))
            else:
                ln = self.vshape[j]
                used.add(j)
                if z3.is_int_value(t) and t.as_long() == 0 and (ln.eq(n) or eng.entails(ln == n)):
                    reg.append(("all",))
                    sub.append((AX[j], AX[d]))
                else:
                    reg.append(("rng", t, ln))
                    sub.append((AX[j], AX[d] - t))
        for j in range(len(self.vshape)):
            if j not in used:
                sub.append((AX[j], iv(0)))
        val = z3.substitute(val, *sub) if sub else val
        if all(r[0] == "all" for r in reg):
            self.buf.c = AData(c.shape, c.dt, val)
        else:
            self.buf.c = AData(c.shape, c.dt, c.base, c.writes + ((tuple(reg), val),))

    # -------------------------------------------------------- arithmetic
    def binop(self, eng, op, o, rev):
        if isinstance(o, (Obj,)) and o.cls.lookup("__array__")[0] is not None:
            o = asarray(eng, o)
        if isinstance(o, (Lst, tuple)):
            o = asarray(eng, o)
        if op not in ("+", "-", "*", "/", "**"):
            raise Unsupported("array operator " + op)
        sh, t, dt = elementwise(eng, op, self, o, rev)
        return mk(eng, sh, t, dt, self.result_cls(eng, o))

    def result_cls(self, eng, o):
        if isinstance(o, Arr) and o.cls_ is not self.cls_:
            nd = eng.nd_cls
            return o.cls_ if self.cls_ is nd else self.cls_ if o.cls_ is nd else nd
        return self.cls_

    def iop(self, eng, op, o):
        sh, t, dt = elementwise(eng, op, self, o, False)
        if SZ[self.dt][1] != "f" and SZ[dt][1] == "f":
            eng.raise_("TypeError", "cannot cast result of in-place operation")
        if len(sh) != len(self.vshape):
            eng.raise_("ValueError", "non-broadcastable output operand")
        for x, y in zip(sh, self.vshape):
            if not x.eq(y) and not eng.entails(x == y):
                if not eng.branch(x == y):
                    eng.raise_("ValueError", "non-broadcastable output operand")
        if self.buf.frozen:
            eng.raise_("ValueError", "output array is read-only")
        self.store(eng, t)
        return self

    def cmp(self, eng, op, o):
        raise Unsupported("array comparison")

    def equal(self, eng, o):
        raise Unsupported("array comparison")

    def neg(self, eng):
        d = self.values()
        return mk(eng, d.shape, -d.body(), d.dt, self.cls_)

    def astype(self, eng, dt):
        d = self.values()
        return mk(eng, d.shape, convert(eng, d.body(), d.dt, dt.name), dt.name, self.cls_, bo=dt.bo)

    def to_byt(self, eng):
        return files.Byt((E(files.Blob(self.values())),))

    def unpack(self, eng, n):
        raise Unsupported("unpacking an array")

    def to_float(self, eng):
        if len(self.vshape) == 0:
            return self.values().body()
        raise Unsupported("float() of an array")

    def __repr__(self):
        return "Arr(%s, %s)" % (self.vshape, self.dt)


def scalar_key(eng, x):
    if isinstance(x, Arr) and len(x.vshape) == 0:
        return x.values().body()
    return x


def mk(eng, shape, body, dt, cls=None, bo="=", **kw):
    shape = [z3.simplify(eng.int_t(s)) for s in shape]
    b = Buf(eng, AData(shape, dt, body, **kw))
    return Arr(b, [(iv(0), j) for j in range(len(shape))], shape, cls or eng.nd_cls, "|" if SZ[dt][0] == 1 else bo)


def convert(eng, t, a, b):
    if a == b or sort_of_dt(a) == sort_of_dt(b) == R:
        return t
    if sort_of_dt(a) == I and sort_of_dt(b) == R:
        return z3.ToReal(t)
    if sort_of_dt(a) == I and sort_of_dt(b) == I and SZ[b][0] >= SZ[a][0]:
        return t
    raise Unsupported("conversion of %s to %s" % (a, b))


def promote(a, b):
    if a == b:
        return a
    ka, kb = SZ[a][1], SZ[b][1]
    if "f" in (ka, kb):
        fs = [x for x in (a, b) if SZ[x][1] == "f"]
        if len(fs) == 2:
            return "float64"
        other = b if fs[0] == a else a
        return fs[0] if SZ[other][0] <= 2 else "float64"
    return a if SZ[a][0] > SZ[b][0] else b


def dims_compat(eng, x, y):
    """broadcast of two extents"""
    if x.eq(y):
        return x
    for p, q in ((x, y), (y, x)):
        if z3.is_int_value(p) and p.as_long() == 1:
            return q
    if eng.entails(x == y):
        return x
    if eng.branch(x == y):
        return x
    for p, q in ((x, y), (y, x)):
        if not eng.entails(p != 1):
            if eng.branch(p == 1):
                return q
    eng.raise_("ValueError", "operands could not be broadcast together")


def broadcast_shapes(eng, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        ds = [s[len(s) - n + i] for s in shapes if len(s) - n + i >= 0]
        r = ds[0]
        for d in ds[1:]:
            r = dims_compat(eng, r, d)
        out.append(r)
    return out


def bcast_body(eng, d, shape):
    """body of d over the axes of the broadcast shape"""
    off = len(shape) - len(d.shape)
    sub = []
    for j, n in enumerate(d.shape):
        m = shape[j + off]
        if n.eq(m):
            t = AX[j + off]
        elif z3.is_int_value(n) and n.as_long() == 1:
            t = iv(0)
        elif eng.entails(n == m):
            t = AX[j + off]
        elif eng.entails(n == 1):
            t = iv(0)
        else:
            raise Unsupported("broadcast")
        sub.append((AX[j], t))
    return z3.substitute(d.body(), *sub) if sub else d.body()


def broadcast_to(eng, d, shape):
    """body of d broadcast to exactly this shape; ValueError when impossible"""
    off = len(shape) - len(d.shape)
    for j, n in enumerate(d.shape):
        m = shape[j + off]
        if n.eq(m) or z3.is_int_value(n) and n.as_long() == 1 or eng.entails(n == m):
            continue
        if eng.branch(n == m):
            continue
        if not eng.entails(n != 1) and eng.branch(n == 1):
            continue
        eng.raise_("ValueError", "could not broadcast input array into shape")
    return bcast_body(eng, d, shape)


def elementwise(eng, op, a, o, rev):
    """(shape, term, dtype)"""
    ASSUMED.add(ASSUMPTION)
    d = a.values()
    if isinstance(o, Arr):
        e = o.values()
        dt = promote(d.dt, e.dt)
        sh = broadcast_shapes(eng, [d.shape, e.shape])
        x, y = bcast_body(eng, d, sh), bcast_body(eng, e, sh)
        x, y = convert(eng, x, d.dt, dt), convert(eng, y, e.dt, dt)
    else:
        if o is None:
            eng.raise_("TypeError", "unsupported operand type(s)")
        sh = d.shape
        dt = d.dt
        x = d.body()
        isr = isinstance(o, float) or is_t(o) and o.sort() == R
        if isr and SZ[dt][1] != "f":
            dt = "float64"
            x = convert(eng, x, d.dt, dt)
        if SZ[dt][1] == "f":
            y = eng.real_t(o)
        elif eng.is_int(o):
            y = eng.int_t(o)
            dt = promote(dt, "int64") if dt != "uint8" else dt
        else:
            raise Unsupported("array %s %s" % (op, type(o).__name__))
    if rev:
        x, y = y, x
    if sort_of_dt(dt) == I and dt not in ("int64",) and op in ("+", "-", "*"):
        raise Unsupported("arithmetic on small integers")
    if op == "/":
        if sort_of_dt(dt) == I:
            x, y, dt = z3.ToReal(x), z3.ToReal(y), "float64"
        ASSUMED.add("divisors of array divisions are non-zero (no NaN/inf)")
        t = x / y
    elif op == "+":
        t = x + y
    elif op == "-":
        t = x - y
    elif op == "*":
        t = x * y
    elif op == "**" and z3.is_rational_value(z3.simplify(y)) and z3.simplify(y).eq(z3.RealVal(2)):
        t = x * x
    else:
        raise Unsupported("array operator " + op)
    return sh, t, dt


def index_data(eng, x):
    """integer index array of a list / array: AData over ints, with parts for concatenated lists"""
    if isinstance(x, Arr):
        d = x.values()
        if sort_of_dt(d.dt) != I:
            if d.dt == "bool":
                raise Unsupported("boolean mask")
            eng.raise_("IndexError", "arrays used as indices must be of integer type")
        return d
    its = eng.items_of(x)
    parts = []
    for it in its:
        if isinstance(it, E):
            if not eng.is_int(it.v):
                raise Unsupported("index list element %s" % type(it.v).__name__)
            parts.append((iv(1), eng.int_t(it.v)))
        elif isinstance(it, For) and len(it.items) == 1 and isinstance(it.items[0], E) and eng.is_int(it.items[0].v):
            n = eng.int_t(it.n)
            if not eng.entails(n >= 0):
                n = z3.If(n > 0, n, iv(0))
            parts.append((n, z3.substitute(eng.int_t(it.items[0].v), (it.k, AX[0]))))
        else:
            raise Unsupported("index list")
    if not parts:
        return AData([iv(0)], "int64", iv(0))
    total, body = iv(0), None
    for n, b in reversed(parts):
        pass
    offs = []
    for n, b in parts:
        offs.append(total)
        total = z3.simplify(total + n)
    for (n, b), o in zip(reversed(parts), reversed(offs)):
        t = z3.substitute(b, (AX[0], z3.simplify(AX[0] - o)))
        body = t if body is None else z3.If(AX[0] < o + n, t, body)
    return AData([total], "int64", body, parts=parts)


def wrap_neg(eng, b, pn, n):
    m = eng.T.fresh("m")
    t = z3.substitute(b, (AX[0], m))
    with Scope(eng, m >= 0, m < pn):
        if eng.entails(t >= 0):
            return b
    return z3.If(b < 0, b + n, b)


def check_bounds(eng, t, shape, n, dat):
    """index term over the shape's axes, wrapped and checked against the extent n"""
    chunks = [(dat.parts[j][0], dat.parts[j][1]) for j in range(len(dat.parts))] if dat.parts is not None and len(shape) == 1 else None
    todo = chunks if chunks is not None else [(None, t)]
    ok = nonneg = True
    for pn, b in todo:
        idx = [eng.T.fresh("m") for _ in shape]
        tt = z3.substitute(b, *zip(AX, idx))
        rng = [z3.And(i >= 0, i < (pn if pn is not None else s)) for i, s in zip(idx, shape)]
        with Scope(eng, *rng):
            nn = eng.entails(tt >= 0)
            nonneg = nonneg and nn
            if not (eng.entails(tt < n) and (nn or eng.entails(tt >= -n))):
                ok = False
    if not ok:
        idx = [eng.T.fresh("m") for _ in shape]
        tt = z3.substitute(t, *zip(AX, idx))
        inr = z3.And(*[z3.And(i >= 0, i < s) for i, s in zip(idx, shape)])
        good = z3.And(tt >= -n, tt < n)
        if eng.nd():
            eng.assume(z3.And(inr, z3.Not(good)))
            if not eng.feasible():
                raise Infeasible()
            eng.raise_("IndexError", "index out of bounds")
        qs = [z3.Const("q_m%d" % i, I) for i in range(len(shape))]
        q = z3.substitute(z3.Implies(inr, good), *zip(idx, qs))
        pats = eng.patterns(q, qs[0])
        eng.assume(z3.ForAll(qs, q, patterns=pats) if pats else z3.ForAll(qs, q))
    return t if nonneg else z3.If(t < 0, t + n, t)


# ------------------------------------------------------------------ functions
def asarray(eng, v, dt=None, copy=False):
    if isinstance(v, Arr):
        if dt is not None and dt.name != v.dt:
            return v.with_(cls_=eng.nd_cls).astype(eng, dt)
        if copy:
            d = v.values()
            return mk(eng, d.shape, d.body(), d.dt)
        return v.with_(cls_=eng.nd_cls)
    if isinstance(v, Obj):
        m = eng.getattr_special(v, "__array__")
        if m is not None:
            r = eng.call(m, [] if dt is None else [dt], {})
            return r
    if isinstance(v, (Lst, tuple, Seq, Rng)):
        its = eng.items_of(v)
        if all(isinstance(i, E) for i in its):
            vs = [i.v for i in its]
            if vs and all(isinstance(x, Arr) for x in vs) and len({len(x.vshape) for x in vs}) == 1:
                raise Unsupported("array of arrays")
            ts = []
            name = dt.name if dt is not None else None
            if name is None:
                name = "int64" if all(eng.is_int(x) for x in vs) and vs else "float64"
            ts = [scalar(eng, x, name) for x in vs]
            body = ts[-1] if ts else (z3.RealVal(0) if sort_of_dt(name) == R else iv(0))
            for i in range(len(ts) - 2, -1, -1):
                body = z3.If(AX[0] == i, ts[i], body)
            return mk(eng, [len(ts)], body, name)
        if len(its) == 1 and isinstance(its[0], For) and len(its[0].items) == 1 and isinstance(its[0].items[0], E):
            g = its[0]
            x = g.items[0].v
            n = eng.int_t(g.n)
            if not eng.entails(n >= 0):
                n = z3.If(n > 0, n, iv(0))
            if isinstance(x, Arr):
                d = x.values()
                for s in d.shape:
                    if mentions(s, [g.k]):
                        raise Unsupported("ragged array")
                nd = len(d.shape)
                body = z3.substitute(d.body(), *[(AX[j], AX[j + 1]) for j in range(nd)])
                body = z3.substitute(body, (g.k, AX[0]))
                return mk(eng, [n] + list(d.shape), body, dt.name if dt else d.dt)
            name = dt.name if dt is not None else "int64" if eng.is_int(x) else "float64"
            with Scope(eng, g.k >= 0, g.k < n):
                t = scalar(eng, x, name)
            return mk(eng, [n], z3.substitute(t, (g.k, AX[0])), name)
    if eng.is_int(v) or isinstance(v, float) or is_t(v) and v.sort() == R:
        name = dt.name if dt else "int64" if eng.is_int(v) else "float64"
        return mk(eng, [], scalar(eng, v, name), name)
    raise Unsupported("asarray of %s" % type(v).__name__)


def shape_arg(eng, s):
    if isinstance(s, (tuple, Lst, Seq)):
        its = eng.items_of(s)
        if not all(isinstance(i, E) for i in its):
            raise Unsupported("shape with a symbolic number of dimensions")
        vs = [i.v for i in its]
    else:
        vs = [s]
    return [z3.simplify(eng.int_t(v)) for v in vs]


def nonneg_shape(eng, sh):
    for s in sh:
        if not z3.is_int_value(s) and not eng.entails(s >= 0):
            if not eng.branch(s >= 0):
                eng.raise_("ValueError", "negative dimensions are not allowed")


def a_zeros(val):
    def f(e, a, k):
        sh = shape_arg(e, a[0] if a else k["shape"])
        nonneg_shape(e, sh)
        dt = to_dtype(e, a[1] if len(a) > 1 else k["dtype"]) if len(a) > 1 or k.get("dtype") is not None else DType("float64")
        s = sort_of_dt(dt.name)
        if val is None:
            e.T.cnt += 1
            g = z3.Function("empty!%d" % e.T.cnt, *([I] * len(sh)), s)
            body = g(*AX[:len(sh)])
        else:
            body = z3.RealVal(val) if s == R else z3.BoolVal(bool(val)) if s == B else iv(val)
        r = mk(e, sh, body, dt.name, bo=dt.bo)
        r.buf.corder = k.get("order", "C") == "C"
        return r
    return f


def a_full(e, a, k):
    sh = shape_arg(e, a[0])
    nonneg_shape(e, sh)
    dt = to_dtype(e, k["dtype"]) if k.get("dtype") is not None else DType("int64" if e.is_int(a[1]) else "float64")
    return mk(e, sh, scalar(e, a[1], dt.name), dt.name)


def a_like(val):
    def f(e, a, k):
        x = a[0]
        return a_zeros(val)(e, [tuple(x.vshape)], {"dtype": k.get("dtype") or DType(x.dt)})
    return f


def reshape(eng, arr, shape):
    sh = shape_arg(eng, shape)
    arr.live()
    n = arr.size_t()
    if any(z3.is_int_value(s) and s.as_long() == -1 for s in sh):
        known = prod([s for s in sh if not (z3.is_int_value(s) and s.as_long() == -1)])
        q = z3.simplify(n / known)
        if len(sh) == 1:
            q = n
        elif not eng.entails(known > 0):
            raise Unsupported("reshape(-1)")
        sh = [q if z3.is_int_value(s) and s.as_long() == -1 else s for s in sh]
    m = prod(sh)
    if not m.eq(n) and not eng.entails(m == n):
        if not eng.branch(m == n):
            eng.raise_("ValueError", "cannot reshape array")
    if len(sh) == len(arr.vshape) and all(x.eq(y) or eng.entails(x == y) for x, y in zip(sh, arr.vshape)):
        return arr
    d = arr.data()
    if not arr.whole():
        # a view: numpy may return a view or a copy; only usable as a value afterwards
        pass
    org = d.origin
    if org is not None and len(org.shape) == len(sh) and all(eng.entails(x == y) for x, y in zip(sh, org.shape)):
        nb = AData(org.shape, d.dt, org.body(), parts=None, origin=None)
    else:
        nb = AData(sh, d.dt, reshape_body(eng, d, sh), origin=d if org is None else org)
    if not z3.is_int_value(n) or n.as_long() > 0:
        arr.buf.moved = True
    b = Buf(eng, nb)
    b.frozen = arr.buf.frozen
    return Arr(b, [(iv(0), j) for j in range(len(sh))], [z3.simplify(x) for x in nb.shape], arr.cls_, arr.bo, arr.mem)


def reshape_body(eng, d, sh):
    """row-major re-indexing; leading extents that agree are kept"""
    a, b = list(d.shape), list(sh)
    p = 0
    while p < len(a) and p < len(b) and (a[p].eq(b[p]) or eng.entails(a[p] == b[p])):
        p += 1
    ra, rb = a[p:], b[p:]
    # flat index over the remaining new axes
    flat = iv(0)
    for j, n in enumerate(rb):
        flat = flat * n + AX[p + j] if not (z3.is_int_value(flat) and flat.as_long() == 0) else AX[p + j]
    if not rb:
        flat = iv(0)
    sub = [(AX[j], AX[j]) for j in range(p)]
    rem = flat
    for j in range(len(ra)):
        tail = prod(ra[j + 1:])
        if j == len(ra) - 1:
            sub.append((AX[p + j], rem))
        else:
            sub.append((AX[p + j], rem / tail))
            rem = rem % tail
    return z3.substitute(d.body(), *sub)


def a_issubdtype(e, a, k):
    d = to_dtype(e, a[0])
    t = a[1]
    if isinstance(t, AbsType):
        return SZ[d.name][1] in t.kinds
    t = to_dtype(e, t)
    return d.name == t.name


def a_arange(e, a, k):
    if len(a) == 1:
        lo, hi = iv(0), e.int_t(a[0])
    elif len(a) == 2:
        lo, hi = e.int_t(a[0]), e.int_t(a[1])
    else:
        raise Unsupported("arange with a step")
    n = z3.simplify(hi - lo)
    if not e.entails(n >= 0):
        n = z3.If(n > 0, n, iv(0))
    return mk(e, [n], z3.simplify(lo + AX[0]), to_dtype(e, k["dtype"]).name if "dtype" in k else "int64")


def out_arg(eng, out):
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    return out


def put_out(eng, out, shape, t, dt, cls):
    """stores a result into out (or a new array)"""
    out = out_arg(eng, out)
    if out is None:
        return mk(eng, shape, t, dt, cls)
    if not isinstance(out, Arr):
        eng.raise_("TypeError", "return arrays must be of ArrayType")
    if len(out.vshape) != len(shape):
        eng.raise_("ValueError", "output operand has the wrong number of dimensions")
    for x, y in zip(shape, out.vshape):
        if not x.eq(y) and not eng.entails(x == y):
            if not eng.branch(x == y):
                eng.raise_("ValueError", "output operand has the wrong shape")
    if SZ[out.dt][1] != "f" and SZ[dt][1] == "f":
        eng.raise_("TypeError", "cannot cast output")
    if out.buf.frozen:
        eng.raise_("ValueError", "output array is read-only")
    out.store(eng, convert(eng, t, dt, out.dt))
    return out


def ufunc(op):
    def f(e, a, k):
        x, y = a[0], a[1]
        out = a[2] if len(a) > 2 else k.get("out")
        if set(k) - {"out"}:
            raise Unsupported("ufunc arguments")
        x = asarray(e, x) if isinstance(x, (Obj, Lst, tuple)) else x
        y = asarray(e, y) if isinstance(y, (Obj, Lst, tuple)) else y
        if not isinstance(x, Arr) and not isinstance(y, Arr):
            return e.binop(op, x, y)
        if isinstance(x, Arr):
            sh, t, dt = elementwise(e, op, x, y, False)
            cls = x.result_cls(e, y)
        else:
            sh, t, dt = elementwise(e, op, y, x, True)
            cls = y.result_cls(e, x)
        return put_out(e, out, sh, t, dt, cls)
    return f


class UFunc:
    cls = None

    def __init__(self, op):
        self.op = op

    def call(self, eng, a, k):
        return ufunc(self.op)(eng, list(a), dict(k))

    def attr(self, eng, name):
        if name == "reduce" and self.op == "+":
            def red(e, a, k):
                x = asarray(e, a[0]) if not isinstance(a[0], Arr) else a[0]
                ax = a[1] if len(a) > 1 else k.get("axis", 0)
                out = a[3] if len(a) > 3 else k.get("out")
                return reduce_sum(e, x, ax, out, k.get("keepdims", False))
            return BI("add.reduce", red)
        raise Unsupported("ufunc.%s" % name)


def sum_axis(eng, d, ax, f=lambda t: t):
    """(shape, term) of the sum over axis ax of f(element)"""
    nd = len(d.shape)
    n = d.shape[ax]
    keep = [j for j in range(nd) if j != ax]
    shape = [d.shape[j] for j in keep]
    ren = [(AX[j], AX[i]) for i, j in enumerate(keep)]

    def one(cnt, body):
        k = eng.T.fresh("k")
        b = z3.substitute(body, (AX[ax], k), *ren) if ren else z3.substitute(body, (AX[ax], k))
        c = z3.simplify(cnt)
        if z3.is_int_value(c) and c.as_long() <= 4:
            r = None
            for i in range(c.as_long()):
                t = z3.substitute(f(b), (k, iv(i)))
                r = t if r is None else r + t
            return r if r is not None else (z3.RealVal(0) if body.sort() == R else iv(0))
        return eng.T.sum(k, c, f(b))
    if ax == 0 and d.parts is not None and not d.writes:
        t = None
        for pn, pb in d.parts:
            s = one(pn, pb)
            t = s if t is None else t + s
        return shape, t
    return shape, one(n, d.body())


def norm_axis(eng, ax, nd):
    ax = eng.pyint(ax)
    if not isinstance(ax, int):
        raise Unsupported("symbolic axis")
    if ax < 0:
        ax += nd
    if not 0 <= ax < nd:
        eng.raise_("ValueError", "axis out of bounds")
    return ax


def reduce_sum(eng, x, ax, out=None, keepdims=False):
    ASSUMED.add(ASSUMPTION)
    d = x.values()
    if ax is None and len(d.shape) == 1:
        ax = 0
    if ax is None or isinstance(ax, tuple):
        raise Unsupported("sum over all axes")
    ax = norm_axis(eng, ax, len(d.shape))
    shape, t = sum_axis(eng, d, ax)
    dt = d.dt
    if dt == "uint8":
        dt = "uint64"
    if eng.truth_t(keepdims) is True:
        shape = shape[:ax] + [iv(1)] + shape[ax:]
        t = z3.substitute(t, *[(AX[j], AX[j + 1]) for j in range(ax, len(shape) - 1)]) if len(shape) > ax + 1 else t
    if not shape and out_arg(eng, out) is None:
        return t
    return put_out(eng, out, shape, t, dt, x.cls_)


def m_mean(e, a, k):
    x = a[0]
    ax = a[1] if len(a) > 1 else k.get("axis")
    r = reduce_sum(e, x, ax, None, False)
    d = x.values()
    ax = norm_axis(e, ax if ax is not None else 0, len(d.shape))
    n = z3.ToReal(d.shape[ax])
    if not isinstance(r, Arr):
        return r / n
    c = r.values()
    sh, t = list(c.shape), c.body() / n
    if e.truth_t(k.get("keepdims", False)) is True:
        raise Unsupported("mean(keepdims)")
    return put_out(e, a[3] if len(a) > 3 else k.get("out"), sh, t, d.dt, x.cls_)


def a_norm(e, a, k):
    ASSUMED.add(ASSUMPTION)
    x = asarray(e, a[0])
    ax = a[2] if len(a) > 2 else k.get("axis")
    if (len(a) > 1 and a[1] is not None) or k.get("ord") not in (None, 2):
        raise Unsupported("norm order")
    d = x.values()
    if ax is None:
        if len(d.shape) != 1:
            raise Unsupported("norm of a matrix")
        ax = 0
    ax = norm_axis(e, ax, len(d.shape))
    shape, t = sum_axis(e, d, ax, lambda b: b * b)
    t = sqrtR(t)
    kd = e.truth_t(k.get("keepdims", False)) is True
    if not shape and not kd:
        return t
    if kd:
        shape = shape[:ax] + [iv(1)] + shape[ax:]
        t = z3.substitute(t, *[(AX[j], AX[j + 1]) for j in range(ax, len(shape) - 1)]) if len(shape) > ax + 1 else t
    return mk(e, shape, t, d.dt)


def a_sqrt(e, a, k):
    x = a[0]
    if isinstance(x, Arr):
        d = x.values()
        return put_out(e, a[1] if len(a) > 1 else k.get("out"), list(d.shape), sqrtR(d.body()), d.dt, x.cls_)
    return sqrtR(e.real_t(x))


def dot(eng, x, y, out=None):
    ASSUMED.add(ASSUMPTION)
    x, y = (v if isinstance(v, Arr) else asarray(eng, v) for v in (x, y))
    a, b = x.values(), y.values()
    dt = promote(a.dt, b.dt)
    if not a.shape or not b.shape:
        return ufunc("*")(eng, [x, y], {})
    n, m = a.shape[-1], b.shape[-2] if len(b.shape) > 1 else b.shape[0]
    if not n.eq(m) and not eng.entails(n == m):
        if not eng.branch(n == m):
            eng.raise_("ValueError", "shapes not aligned")
    na, nb = len(a.shape), len(b.shape)
    if na > 2 or nb > 2:
        raise Unsupported("dot of more than two dimensions")
    k = eng.T.fresh("k")
    ta = z3.substitute(a.body(), (AX[na - 1], k))
    shape = list(a.shape[:-1])
    if nb == 1:
        tb = z3.substitute(b.body(), (AX[0], k))
    else:
        tb = z3.substitute(b.body(), (AX[0], k), (AX[1], AX[len(shape)]))
        shape.append(b.shape[1])
    t = eng.T.sum(k, n, ta * tb)
    out = out_arg(eng, out)
    if not shape and out is None:
        return t
    if isinstance(out, Arr):
        # dot accepts only an output array of exactly the result type and shape
        if out.dt != dt:
            eng.raise_("ValueError", "output array is not acceptable")
        if not (out.whole() and out.buf.corder):
            # ... and one in C order, which an array that was not allocated here need not be
            if not eng.branch(eng.T.fresh("c_order", z3.BoolSort())):
                eng.raise_("ValueError", "output array is not acceptable (not in C order)")
    return put_out(eng, out, shape, t, dt, x.result_cls(eng, y))


def transpose(eng, x):
    n = len(x.vshape)
    return Arr(x.buf, [(t, None if j is None else n - 1 - j) for t, j in x.map], x.vshape[::-1], x.cls_, x.bo, x.mem)


def flat_data(eng, d):
    """1-d form of a content (as read from a file)"""
    if len(d.shape) == 1:
        return d
    return AData([prod(d.shape)], d.dt, reshape_body(eng, d, [prod(d.shape)]), origin=d)


def a_fromfile(e, a, k):
    f = a[0] if a else k["file"]
    dt = to_dtype(e, a[1] if len(a) > 1 else k.get("dtype", DType("float64")))
    cnt = a[2] if len(a) > 2 else k.get("count", -1)
    if not isinstance(f, files.FileR):
        raise Unsupported("fromfile of %s" % type(f).__name__)
    if set(k) - {"file", "dtype", "count"}:
        raise Unsupported("fromfile arguments")
    n = e.int_t(cnt)
    if not e.entails(n >= 0):
        if e.branch(n < 0):
            raise Unsupported("fromfile without a count")
    size = SZ[dt.name][0]
    done, rest, pos = f.c
    nb = z3.simplify(n * size)
    toks = f.advance(e, nb)
    if toks is None:
        # short file: fewer elements, whatever is there
        m = e.T.fresh("got")
        av = f.avail(e, pos, files.toks_len(e, [x for x in rest if not isinstance(x, files.EndIter)]) if f.cut is None else iv(0)) if done != "eof" else iv(0)
        e.assume(z3.And(m >= 0, m * size <= av, m < n))
        e.T.cnt += 1
        g = z3.Function("junk!%d" % e.T.cnt, I, sort_of_dt(dt.name))
        return mk(e, [m], g(AX[0]), dt.name, bo=dt.bo)
    d = tokens_data(e, toks, dt, n)
    b = Buf(e, AData([n], dt.name, d.body() if len(d.shape) == 1 else flat_data(e, d).body(), origin=d if len(d.shape) > 1 else None))
    return Arr(b, [(iv(0), 0)], [z3.simplify(n)], e.nd_cls, "|" if size == 1 else dt.bo)


def tokens_data(eng, toks, dt, n):
    """content of the array whose raw little-endian bytes these tokens are"""
    if dt.bo == ">":
        raise Unsupported("big-endian read")
    rows = []         # (count, AData body over row axes)
    toks = list(toks)
    if not toks:
        s = sort_of_dt(dt.name)
        return AData([n], dt.name, z3.RealVal(0) if s == R else iv(0))
    if len(toks) == 1 and isinstance(toks[0], E) and isinstance(toks[0].v, files.Blob):
        d = toks[0].v.arr
        if d.dt != dt.name:
            raise Unsupported("array of another type read")
        return d
    pieces = []
    for it in toks:
        if isinstance(it, E) and isinstance(it.v, files.Blob):
            d = it.v.arr
            if len(d.shape) == 1:
                pieces.append((iv(1), AData([iv(1), d.shape[0]], d.dt, z3.substitute(d.body(), (AX[0], AX[1])))))
            elif len(d.shape) == 2:
                pieces.append((d.shape[0], d))
            else:
                raise Unsupported("array read over several fields")
        elif isinstance(it, For) and len(it.items) == 1 and isinstance(it.items[0], E) and isinstance(it.items[0].v, files.Blob):
            d = it.items[0].v.arr
            if len(d.shape) != 1 or mentions(d.shape[0], [it.k]):
                raise Unsupported("array read over several fields")
            m = eng.int_t(it.n)
            b = z3.substitute(z3.substitute(d.body(), (AX[0], AX[1])), (it.k, AX[0]))
            pieces.append((m, AData([m, d.shape[0]], d.dt, b)))
        else:
            raise Unsupported("array read over %s" % str(it)[:80])
    c = pieces[0][1].shape[1]
    total, offs = iv(0), []
    for m, d in pieces:
        if d.dt != dt.name or not (d.shape[1].eq(c) or eng.entails(d.shape[1] == c)):
            raise Unsupported("array read over fields of different width")
        offs.append(total)
        total = z3.simplify(total + m)
    body = None
    for (m, d), o in zip(reversed(pieces), reversed(offs)):
        t = z3.substitute(d.body(), (AX[0], z3.simplify(AX[0] - o)))
        body = t if body is None else z3.If(AX[0] < z3.simplify(o + m), t, body)
    return AData([total, c], dt.name, body)


def a_memmap(e, a, k):
    names = ["filename", "dtype", "mode", "offset", "shape", "order"]
    kw = dict(zip(names, a))
    kw.update(k)
    p = kw["filename"]
    dt = to_dtype(e, kw.get("dtype", NpType("uint8")))
    if not isinstance(p, files.PathV):
        raise Unsupported("memmap of %s" % type(p).__name__)
    if kw.get("mode", "r+") not in ("r", "c", "r+") or kw.get("order", "C") != "C" or kw.get("shape") is None:
        raise Unsupported("memmap arguments")
    sh = shape_arg(e, kw["shape"])
    f = files.FileR(e, p.current(e) or (), p.cut if p.out is None else None, p, 0)
    e.heap.remove(f)
    off = e.int_t(kw.get("offset", 0))
    nb = z3.simplify(prod(sh) * SZ[dt.name][0])
    if f.cut is not None and not e.entails(off + nb <= f.cut):
        if not e.branch(off + nb <= f.cut):
            e.raise_("ValueError", "mmap length is greater than file size")
    lg = e.loop_gen
    e.loop_gen = []
    try:
        f.skip(e, off)
        toks = f.advance(e, nb) if f.c[0] != "eof" else None
    finally:
        e.loop_gen = lg
    if toks is None:
        e.raise_("ValueError", "mmap length is greater than file size")
    ASSUMED.add("np.memmap shows the bytes of the file and the file is not changed while mapped")
    d = tokens_data(e, toks, dt, prod(sh))
    fl = d if len(d.shape) == len(sh) and all(e.entails(x == y) for x, y in zip(d.shape, sh)) else None
    if fl is None:
        fl = AData(sh, dt.name, reshape_body(e, d, sh), origin=d)
    r = mk(e, sh, fl.body(), dt.name, e.mm_cls, bo=dt.bo)
    r.buf.frozen = kw.get("mode", "r+") == "r"
    if kw.get("mode", "r+") == "r+":
        raise Unsupported("writable memory map")
    return r


def m_tofile(e, a, k):
    x, f = a[0], a[1]
    if len(a) > 2 or k:
        raise Unsupported("tofile arguments")
    if not isinstance(f, files.FileW):
        raise Unsupported("tofile to %s" % type(f).__name__)
    d = x.data()
    if x.mem == ">":
        d = AData(d.shape, d.dt, bswapped(d.body()))
    f.put(e, (E(files.Blob(d)),))


def bswapped(t):
    """the value whose bytes are those of t in reverse order (uninterpreted, its own inverse)"""
    if z3.is_app(t) and t.decl().name() == "bswap":
        return t.arg(0)
    return z3.Function("bswap", t.sort(), t.sort())(t)


def a_abs(e, a, k):
    x = a[0]
    if k or not isinstance(x, Arr):
        return e.call(e.B["abs"], [x], {}) if not k else Opaque("abs").call(e, a, k)
    d = x.values()
    b = d.body()
    if SZ[x.dt][0] != 1 or not z3.is_arith(b):
        return mk(e, d.shape, z3.If(b >= 0, b, -b), d.dt, x.cls_)
    return m_copy(e, [x], {})


def m_byteswap(e, a, k):
    x = a[0]
    inplace = a[1] if len(a) > 1 else k.get("inplace", False)
    it = e.truth_t(inplace)
    if it is not False:
        if it is not True:
            raise Unsupported("in-place byteswap")
        x.live()
        if x.buf.frozen:
            e.raise_("ValueError", "output array is read-only")
        if SZ[x.dt][0] != 1:
            x.store(e, bswapped(x.data().body()))
        return x
    if SZ[x.dt][0] == 1:
        return m_copy(e, [x], {})
    d = x.data()
    r = mk(e, d.shape, d.body(), d.dt, x.cls_, bo=x.bo)
    r.mem = "=" if x.mem == ">" else ">"
    return r


def m_view(e, a, k):
    x = a[0]
    if len(a) < 2:
        return x.with_()
    t = a[1]
    if isinstance(t, Cls) and e.nd_cls in t.mro:
        return x.with_(cls_=t)
    raise Unsupported("view as %r" % (t,))


def m_copy(e, a, k):
    d = a[0].values()
    return mk(e, d.shape, d.body(), d.dt, a[0].cls_, bo=a[0].bo)


def m_reshape(e, a, k):
    s = a[1] if len(a) == 2 else tuple(a[1:])
    return reshape(e, a[0], s)


def m_astype(e, a, k):
    return a[0].astype(e, to_dtype(e, a[1]))


def m_argpartition(e, a, k):
    """assumed contract: a permutation p with sims[p[i]] <= sims[p[kth]] <= sims[p[j]] for i < kth <= j"""
    x = a[0]
    d = x.values()
    if len(d.shape) != 1 or len(a) != 2 or k:
        raise Unsupported("argpartition arguments")
    n = d.shape[0]
    kth = e.int_t(a[1])
    ok = z3.And(kth >= -n, kth < n)
    if not e.entails(ok):
        if not e.branch(ok):
            if e.branch(n == 0):
                return mk(e, [iv(0)], AX[0], "int64")
            e.raise_("ValueError", "kth out of bounds")
    kth = z3.simplify(z3.If(kth < 0, kth + n, kth)) if not e.entails(kth >= 0) else kth
    if e.entails(a[1] < 0 if is_t(a[1]) else z3.BoolVal(isinstance(a[1], int) and a[1] < 0)):
        kth = z3.simplify(e.int_t(a[1]) + n)
    e.T.cnt += 1
    p = z3.Function("part!%d" % e.T.cnt, I, I)
    inv = z3.Function("partinv!%d" % e.T.cnt, I, I)
    i = z3.Const("q_i", I)
    e.assume(z3.ForAll([i], z3.And(inv(p(i)) == i, z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= 0, p(i) < n))), patterns=[p(i)]))
    e.assume(z3.ForAll([i], z3.And(p(inv(i)) == i, z3.Implies(z3.And(i >= 0, i < n), z3.And(inv(i) >= 0, inv(i) < n))), patterns=[inv(i)]))
    v = lambda t: z3.substitute(d.body(), (AX[0], t))
    piv = v(p(kth))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Implies(i < kth, v(p(i)) <= piv), z3.Implies(i >= kth, v(p(i)) >= piv))), patterns=[p(i)]))
    ASSUMED.add("ndarray.argpartition returns a permutation partitioned around the kth element")
    r = mk(e, [n], p(AX[0]), "int64")
    e.perms.append((inv, p))
    return r


def m_argsort(e, a, k):
    import order
    return order.argsort(e, a, k)


def nd_methods():
    def prop(f):
        return Prop(BI("ndarray.property", lambda e, a, k: f(e, a[0])))
    return {
        "shape": prop(lambda e, x: tuple(e.norm(s) for s in x.vshape)),
        "ndim": prop(lambda e, x: len(x.vshape)),
        "size": prop(lambda e, x: e.norm(x.size_t())),
        "dtype": prop(lambda e, x: DType(x.dt, x.bo)),
        "itemsize": prop(lambda e, x: SZ[x.dt][0]),
        "nbytes": prop(lambda e, x: e.norm(x.size_t() * SZ[x.dt][0])),
        "T": prop(transpose),
        "transpose": BI("transpose", lambda e, a, k: transpose(e, a[0])),
        "__getitem__": BI("ndarray.__getitem__", lambda e, a, k: a[0].getitem(e, a[1])),
        "__setitem__": BI("ndarray.__setitem__", lambda e, a, k: a[0].view_of(e, a[1]).assign(e, a[2])),
        "__len__": BI("ndarray.__len__", lambda e, a, k: e.norm(a[0].length(e))),
        "__iter__": BI("ndarray.__iter__", lambda e, a, k: Seq(a[0].with_(cls_=e.nd_cls).iter_items(e), "gen")),
        "__array__": BI("ndarray.__array__", lambda e, a, k: a[0]),
        "view": BI("view", m_view), "copy": BI("copy", m_copy), "reshape": BI("reshape", m_reshape), "astype": BI("astype", m_astype),
        "tofile": BI("tofile", m_tofile), "byteswap": BI("byteswap", m_byteswap), "argpartition": BI("argpartition", m_argpartition),
        "argsort": BI("argsort", m_argsort),
        "dot": BI("dot", lambda e, a, k: dot(e, a[0], a[1], a[2] if len(a) > 2 else k.get("out"))),
        "sum": BI("sum", lambda e, a, k: reduce_sum(e, a[0], a[1] if len(a) > 1 else k.get("axis"), k.get("out"), k.get("keepdims", False))),
        "mean": BI("mean", m_mean),
        "tobytes": BI("tobytes", lambda e, a, k: a[0].to_byt(e)),
        "ravel": BI("ravel", lambda e, a, k: reshape(e, a[0], -1)), "flatten": BI("flatten", lambda e, a, k: reshape(e, m_copy(e, [a[0]], {}), -1)),
        "tolist": BI("tolist", lambda e, a, k: Lst(e, a[0].iter_items(e)) if len(a[0].vshape) == 1 else Opaque("tolist").call(e, a, k)),
    }


def install(eng):
    nd = Cls("ndarray", [eng.B["object"]], nd_methods(), "numpy")
    eng.nd_cls = nd
    eng.mm_cls = Cls("memmap", [nd], {}, "numpy")
    eng.mm_cls.d["__bi_new__"] = lambda e, cls, a, k: a_memmap(e, list(a), dict(k))
    d = {"ndarray": nd, "memmap": eng.mm_cls, "zeros": BI("zeros", a_zeros(0)), "ones": BI("ones", a_zeros(1)), "empty": BI("empty", a_zeros(None)), "full": BI("full", a_full),
         "zeros_like": BI("zeros_like", a_like(0)), "empty_like": BI("empty_like", a_like(None)),
         "reshape": BI("reshape", lambda e, a, k: reshape(e, a[0], a[1])), "issubdtype": BI("issubdtype", a_issubdtype),
         "asarray": BI("asarray", lambda e, a, k: asarray(e, a[0], to_dtype(e, a[1] if len(a) > 1 else k["dtype"]) if len(a) > 1 or k.get("dtype") is not None else None)),
         "array": BI("array", lambda e, a, k: asarray(e, a[0], to_dtype(e, a[1] if len(a) > 1 else k["dtype"]) if len(a) > 1 or k.get("dtype") is not None else None, True)),
         "arange": BI("arange", a_arange), "fromfile": BI("fromfile", a_fromfile), "multiply": UFunc("*"), "add": UFunc("+"), "subtract": UFunc("-"), "divide": UFunc("/"), "true_divide": UFunc("/"),
         "dot": BI("dot", lambda e, a, k: dot(e, a[0], a[1], a[2] if len(a) > 2 else k.get("out"))), "matmul": BI("matmul", lambda e, a, k: dot(e, a[0], a[1], k.get("out"))),
         "sum": BI("sum", lambda e, a, k: reduce_sum(e, a[0], a[1] if len(a) > 1 else k.get("axis"), k.get("out"), k.get("keepdims", False))),
         "mean": BI("mean", m_mean), "sqrt": BI("sqrt", a_sqrt), "newaxis": None,
         "abs": BI("abs", a_abs), "absolute": BI("absolute", a_abs), "fabs": BI("fabs", a_abs),
         "copy": BI("copy", m_copy), "dtype": BI("dtype", lambda e, a, k: to_dtype(e, a[0])), "argpartition": BI("argpartition", m_argpartition), "argsort": BI("argsort", m_argsort),
         "floating": AbsType("f"), "integer": AbsType("iu"), "number": AbsType("fiu"), "generic": AbsType("fiub")}
    d["ascontiguousarray"] = d["asarray"]
    for n in SZ:
        if n != "bool":
            d[n] = NpType(n)
    d["single"], d["double"], d["intp"], d["float_"] = NpType("float32"), NpType("float64"), NpType("int64"), NpType("float64")
    eng.ext["numpy"] = d
    eng.ext["numpy.linalg"] = {"norm": BI("linalg.norm", a_norm)}
