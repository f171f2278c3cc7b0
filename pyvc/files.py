"""Byte strings and binary files as sequences of typed tokens.

The contents of a byte string / binary file is an item tree (values.E, For,
IfI) whose leaves are tokens: a literal `bytes`, an integer of fixed width
(little endian), the UTF-8 encoding of a string, zero padding, the raw bytes of
an array.  A reader may consume whole tokens (or cut literal/padding tokens);
anything else is outside the verifier's reach (and reported as undecided).
"""
import z3
from terms import *
from values import *
from interp import CT, MakeGeneric
from interp2 import meth
import builtins_
from builtins_ import _SZ, ASSUMED


class Tok:
    __slots__ = ()

    def terms(self, eng):
        return tuple(getattr(self, s) for s in self.__slots__)

    def subst(self, eng, sub):
        n = type(self).__new__(type(self))
        for s in self.__slots__:
            setattr(n, s, eng.subst_val(getattr(self, s), sub))
        return n

    def index_terms(self):
        return [getattr(self, s) for s in self.__slots__]

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(str(getattr(self, s)) for s in self.__slots__))


class IntT(Tok):
    """w-byte little-endian integer"""
    __slots__ = ("w", "t", "sg")

    def __init__(self, w, t, sg=False):
        self.w, self.t, self.sg = w, t, sg

    def nbytes(self, eng):
        return iv(self.w)

    def prove_eq(self, eng, o, what):
        import prove
        if isinstance(o, bytes) and len(o) == self.w:
            o = IntT(self.w, int.from_bytes(o, "little", signed=bool(self.sg)), self.sg)
        if not isinstance(o, IntT) or o.w != self.w:
            return prove.Why("undecided", "%s: %r versus %r" % (what, self, o))
        return eng.prove_val(self.t, o.t, what + " (%d-byte integer)" % self.w)


class FltT(Tok):
    """w-byte little-endian float of value t"""
    __slots__ = ("w", "t")

    def __init__(self, w, t):
        self.w, self.t = w, t

    def nbytes(self, eng):
        return iv(self.w)

    def prove_eq(self, eng, o, what):
        import prove
        if not isinstance(o, FltT) or o.w != self.w:
            return prove.Why("undecided", "%s: %r versus %r" % (what, self, o))
        return eng.prove_val(self.t, o.t, what + " (float)")


class Utf8(Tok):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def nbytes(self, eng):
        return ublen(eng, self.s)

    def prove_eq(self, eng, o, what):
        import prove
        if isinstance(o, bytes):
            try:
                o = Utf8(o.decode())
            except UnicodeDecodeError:
                pass
        if not isinstance(o, Utf8):
            return prove.Why("undecided", "%s: %r versus %r" % (what, self, o))
        return eng.prove_val(self.s, o.s, what + " (string)")


class UByte(Tok):
    """byte k of the UTF-8 encoding of s"""
    __slots__ = ("s", "k")

    def __init__(self, s, k):
        self.s, self.k = s, k

    def nbytes(self, eng):
        return iv(1)

    def prove_eq(self, eng, o, what):
        import prove
        if isinstance(o, bytes) and len(o) == 1:
            return eng.goal(ubyte(eng.str_t(self.s), eng.int_t(self.k)) == z3.BitVecVal(o[0], 8), what)
        if not isinstance(o, UByte):
            return prove.Why("undecided", "%s: %r versus %r" % (what, self, o))
        return eng.goal(ubyte(eng.str_t(self.s), eng.int_t(self.k)) == ubyte(eng.str_t(o.s), eng.int_t(o.k)), what)


def byte_loop(eng, s):
    """the encoding of s as a sequence of single bytes"""
    k = eng.T.fresh("k")
    return For(k, ublen(eng, s), [E(UByte(s, k))])


class PadT(Tok):
    """n zero bytes"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def nbytes(self, eng):
        return eng.int_t(self.n)

    def prove_eq(self, eng, o, what):
        import prove
        if isinstance(o, bytes) and not o.strip(b"\0"):
            o = PadT(len(o))
        if not isinstance(o, PadT):
            return prove.Why("undecided", "%s: %r versus %r" % (what, self, o))
        return eng.prove_val(self.n, o.n, what + " (padding)")


class Rep(Tok):
    """the byte b repeated n times"""
    __slots__ = ("b", "n")

    def __init__(self, b, n):
        self.b, self.n = b, n

    def nbytes(self, eng):
        return eng.int_t(self.n)


class Blob(Tok):
    """raw little-endian bytes of an array (C order)"""
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr

    def nbytes(self, eng):
        return eng.int_t(self.arr.size(eng)) * self.arr.itemsize()

    def prove_eq(self, eng, o, what):
        import prove
        if not isinstance(o, Blob):
            return prove.Why("undecided", "%s: %r versus %r" % (what, self, o))
        return eng.prove_val(self.arr, o.arr, what + " (array)")

    def rows(self, eng, it):
        """the array whose rows are the arrays of a loop"""
        import arrays
        d = self.arr
        n = eng.int_t(it.n)
        if len(d.shape) > 3 or any(mentions(s, [it.k]) for s in d.shape) or not eng.entails(n >= 0):
            return None
        b = z3.substitute(d.body(), *[(arrays.AX[j], arrays.AX[j + 1]) for j in range(len(d.shape))])
        return Blob(arrays.AData((n,) + d.shape, d.dt, z3.substitute(b, (it.k, arrays.AX[0]))))

    def index_terms(self):
        return self.arr.index_terms()


class Short(Tok):
    """unknown bytes, n of them"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def nbytes(self, eng):
        return eng.int_t(self.n)


class Opaque_(Tok):
    """the encoding of one abstract part (e.g. the body of a chunk, under its contract)"""
    __slots__ = ("what", "val", "n")

    def __init__(self, what, val, n):
        self.what, self.val, self.n = what, val, n

    def nbytes(self, eng):
        return eng.int_t(self.n)

    def terms(self, eng):
        return (self.n,)

    def subst(self, eng, sub):
        return Opaque_(self.what, self.val, eng.subst_val(self.n, sub))

    def prove_eq(self, eng, o, what):
        import prove
        if not isinstance(o, Opaque_) or o.what != self.what or o.val is not self.val:
            return prove.Why("refuted" if isinstance(o, Opaque_) else "undecided", "%s: %r versus %r" % (what, self, o))
        return eng.prove_val(self.n, o.n, what + " (length)")


def ublen(eng, s):
    if isinstance(s, str):
        return iv(len(s.encode("utf-8", "surrogatepass")))
    l = eng.lit_of(s)
    if l is not None:
        return iv(len(l.encode()))
    if z3.is_app(s) and s.decl().name() == "scat":
        return ublen(eng, s.arg(0)) + ublen(eng, s.arg(1))
    return blen(s)


def tok_len(eng, it):
    if isinstance(it, E):
        v = it.v
        return iv(len(v)) if isinstance(v, bytes) else v.nbytes(eng)
    if isinstance(it, For):
        return eng.T.sum(it.k, eng.int_t(it.n), z3.simplify(toks_len(eng, it.items)))
    if isinstance(it, IfI):
        return z3.If(it.cond, toks_len(eng, it.a), toks_len(eng, it.b))
    if isinstance(it, Gen):
        return it.length
    raise Unsupported("length of bytes")


def toks_len(eng, toks):
    r = iv(0)
    for it in toks:
        r = r + tok_len(eng, it)
    return z3.simplify(r)


def norm_toks(eng, toks):
    """merge literals; constant integers become literals"""
    out = []
    for it in toks:
        if isinstance(it, E):
            v = it.v
            if isinstance(v, IntT):
                t = z3.simplify(v.t) if is_t(v.t) else v.t
                if is_t(t) and z3.is_int_value(t):
                    t = t.as_long()
                if isinstance(t, int) and not isinstance(t, bool):
                    try:
                        v = t.to_bytes(v.w, "little", signed=bool(v.sg))
                    except OverflowError:
                        pass
            elif isinstance(v, PadT):
                t = z3.simplify(v.n) if is_t(v.n) else v.n
                if is_t(t) and z3.is_int_value(t):
                    t = t.as_long()
                if isinstance(t, int) and t < 4096:
                    v = b"\0" * t
            elif isinstance(v, Utf8):
                l = v.s if isinstance(v.s, str) else eng.lit_of(v.s)
                if l is not None:
                    v = l.encode()
            elif isinstance(v, JoinT):
                sp = v.j.sep.encode() if isinstance(v.j.sep, str) else b""
                if sp and out and isinstance(out[-1], E) and isinstance(out[-1].v, bytes) and out[-1].v.endswith(sp):
                    ts = v.split_sep(eng)
                    if ts is not None:
                        rest = out[-1].v[:-len(sp)]
                        out[-1:] = [E(rest)] if rest else []
                        out.extend(norm_toks(eng, ts))
                        continue
            if isinstance(v, bytes):
                if not v:
                    continue
                if out and isinstance(out[-1], E) and isinstance(out[-1].v, bytes):
                    out[-1] = E(out[-1].v + v)
                    continue
            out.append(E(v))
        elif isinstance(it, For):
            b = norm_toks(eng, it.items)
            if len(b) == 1 and isinstance(b[0], E) and isinstance(b[0].v, Blob) and b[0].v.rows(eng, it) is not None:
                out.append(E(b[0].v.rows(eng, it)))
            elif len(b) == 1 and isinstance(b[0], E) and isinstance(b[0].v, UByte) and eng.int_t(b[0].v.k).eq(it.k) and not mentions(eng.str_t(b[0].v.s), [it.k]) and eng.entails(eng.int_t(it.n) == ublen(eng, b[0].v.s)):
                out.append(E(Utf8(b[0].v.s)))
            elif b:
                out.append(For(it.k, it.n, b))
        elif isinstance(it, IfI):
            out.append(IfI(it.cond, norm_toks(eng, it.a), norm_toks(eng, it.b)))
        else:
            out.append(it)
    return tuple(out)


class Byt:
    """immutable byte string"""
    __slots__ = ("toks",)

    def __init__(self, toks):
        self.toks = tuple(toks)

    @property
    def cls(self):
        return None

    def terms(self, eng):
        return self.toks

    def subst(self, eng, sub):
        return Byt(tuple(eng.subst_val(t, sub) for t in self.toks))

    def length(self, eng):
        return toks_len(eng, self.toks)

    def single(self, eng):
        ts = norm_toks(eng, self.toks)
        return ts[0].v if len(ts) == 1 and isinstance(ts[0], E) else None

    def getitem(self, eng, i):
        if isinstance(i, Sl):
            n = toks_len(eng, self.toks)
            lo, hi = eng.slice_bounds(i, n)
            if eng.entails(z3.And(lo == 0, hi == n)):
                return self
            r = split(eng, self.toks, lo)
            if r is not None:
                m = split(eng, r[1], z3.simplify(hi - lo))
                if m is not None:
                    return Byt(m[0])
            raise Unsupported("slice of bytes")
        v = self.single(eng)
        if isinstance(v, Utf8):
            t = eng.int_t(i)
            n = v.nbytes(eng)
            if not eng.entails(z3.And(t >= 0, t < n)):
                if not eng.branch(z3.And(t >= 0, t < n)):
                    eng.raise_("IndexError", "index out of range")
            return CV("uint8_t", ubyte(eng.str_t(v.s), t))
        if isinstance(v, bytes):
            j = eng.pyint(i)
            if isinstance(j, int):
                try:
                    return v[j]
                except IndexError:
                    eng.raise_("IndexError")
        raise Unsupported("index into bytes")

    def attr(self, eng, name):
        return bytes_attr(eng, self, name)

    def truth(self, eng):
        return self.length(eng) > 0

    def equal(self, eng, o):
        if not isinstance(o, (Byt, bytes)):
            return False
        a, b = norm_toks(eng, self.toks), norm_toks(eng, to_byt(eng, o).toks)
        if not a and not b:
            return True
        la, lb = toks_len(eng, a), toks_len(eng, b)
        if eng.entails(la != lb):
            return False
        if len(a) == 1 and len(b) == 1 and isinstance(a[0], E) and isinstance(b[0], E):
            x, y = a[0].v, b[0].v
            if isinstance(x, bytes) and isinstance(y, bytes):
                return x == y
            if isinstance(y, Short) or isinstance(x, Short):
                # unknown contents of another length differ; of the same length: either
                return z3.And(la == lb, eng.T.fresh("eqb", B))
            if isinstance(x, bytes) and isinstance(y, Utf8):
                x, y = y, x
            if isinstance(x, Utf8) and isinstance(y, bytes):
                try:
                    return eng.str_t(x.s) == eng.T.lit(y.decode())
                except UnicodeDecodeError:
                    return False
            if isinstance(y, UByte):
                x, y = y, x
            if isinstance(x, UByte) and isinstance(y, bytes) and len(y) == 1:
                return ubyte(eng.str_t(x.s), eng.int_t(x.k)) == z3.BitVecVal(y[0], 8)
            if isinstance(x, Utf8) and isinstance(y, Utf8):
                return eng.str_t(x.s) == eng.str_t(y.s)
            if isinstance(x, bytes) and isinstance(y, IntT):
                x, y = y, x
            if isinstance(x, IntT) and isinstance(y, bytes) and len(y) == x.w:
                return eng.int_t(x.t) == int.from_bytes(y, "little", signed=bool(x.sg))
        if not b or not a:
            l = toks_len(eng, a or b)
            return eng.norm(l == 0)
        if eng.prove_items(a, b) is None:
            return True
        raise Unsupported("comparison of bytes")

    def binop(self, eng, op, o, rev):
        if op == "+":
            a, b = self.toks, to_byt(eng, o).toks
            return Byt(b + a if rev else a + b)
        return NotImplemented

    def prove_eq(self, eng, o, what):
        if not isinstance(o, (Byt, bytes, BArr)):
            return NotImplemented
        return prove_bytes(eng, self.toks, to_byt(eng, o).toks, what)

    def isinst(self, eng, t):
        return t is eng.B["bytes"] or t is eng.B["object"]

    def iter_items(self, eng):
        raise Unsupported("iteration over bytes")

    def __repr__(self):
        return "Byt%r" % (self.toks,)


def prove_bytes(eng, a, b, what):
    return eng.prove_items(norm_toks(eng, a), norm_toks(eng, b), what)


def to_byt(eng, v):
    if isinstance(v, Byt):
        return v
    if isinstance(v, bytes):
        return Byt((E(v),) if v else ())
    if isinstance(v, BArr):
        return Byt(v.c)
    if eng.is_int(v):
        return Byt((E(PadT(eng.pyint(v))),))
    if hasattr(v, "to_byt"):
        return v.to_byt(eng)
    raise Unsupported("bytes of %s" % type(v).__name__)


def encode(eng, s, enc="utf-8"):
    if not isinstance(enc, str) or enc.lower().replace("_", "-") not in ("utf-8", "utf8"):
        if isinstance(s, str) and s.isascii() and isinstance(enc, str) and enc.lower() in ("ascii", "latin-1", "us-ascii"):
            return s.encode(enc)
        if isinstance(s, FStr) and isinstance(enc, str) and enc.lower() in ("ascii", "latin-1", "us-ascii") and all(isinstance(p, str) and p.isascii() or not eng.is_str(p) for p in s.pieces):
            return encode(eng, s)
        raise Unsupported("encoding %s" % (enc,))
    if isinstance(s, str):
        return s.encode("utf-8")
    if isinstance(s, FStr):
        return Byt([x for p in s.pieces for x in ([E(p.encode())] if isinstance(p, str) else [E(Utf8(p))] if eng.is_str(p) else enc_join(eng, p) if isinstance(p, JoinStr) else [E(TextT(number(eng, p)))])])
    if isinstance(s, JoinStr):
        return Byt(enc_join(eng, s))
    if hasattr(s, "encode_"):
        return s.encode_(eng)
    ASSUMED.add("strings contain no lone surrogates (are encodable as UTF-8)")
    return Byt((E(Utf8(eng.str_t(s))),))


class TextT(Tok):
    """decimal text of a number"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def nbytes(self, eng):
        f = z3.Function("declen", I if eng.is_int(self.v) else R, I)
        t = f(eng.int_t(self.v) if eng.is_int(self.v) else eng.real_t(self.v))
        eng.assume_once(t >= 1)
        return t

    def prove_eq(self, eng, o, what):
        import prove
        if not isinstance(o, TextT):
            return prove.Why("undecided", "%s: %r versus %r" % (what, self, o))
        return eng.prove_val(self.v, o.v, what + " (number)")


class JoinT(Tok):
    """UTF-8 text of sep.join(items)"""
    __slots__ = ("j",)

    def __init__(self, j):
        self.j = j

    def terms(self, eng):
        return self.j.terms(eng)

    def nbytes(self, eng):
        raise Unsupported("length of joined text")

    def prove_eq(self, eng, o, what):
        import prove
        if not isinstance(o, JoinT):
            return prove.Why("undecided", "%s: joined text versus %r" % (what, o))
        return self.j.prove_eq(eng, o.j, what)

    def split_sep(self, eng):
        """sep.join(items) preceded by sep, as a loop writing sep and item; None if there may be no item"""
        j = self.j
        if not isinstance(j.sep, str) or not j.sep or not eng.entails(j.count(eng) >= 1):
            return None

        def conv(it):
            if isinstance(it, E):
                return [E(j.sep.encode())] + list(to_byt(eng, encode(eng, it.v if isinstance(it.v, FStr) or eng.is_str(it.v) else FStr([it.v]))).toks)
            if isinstance(it, For):
                return [For(it.k, it.n, [y for x in it.items for y in conv(x)])]
            raise Unsupported("joined text")
        return [y for x in j.items for y in conv(x)]


def number(eng, p):
    if not eng.is_int(p) and not (is_t(p) and p.sort() == R):
        raise Unsupported("encoding of %s" % type(p).__name__)
    return p


def enc_join(eng, j):
    return [E(JoinT(j))]


def repeat(eng, b, n):
    m = eng.pyint(n)
    if isinstance(m, int):
        return b * m
    if b == b"\0":
        return Byt((E(PadT(z3.If(m > 0, m, iv(0)))),))
    raise Unsupported("bytes repetition")


def bytes_attr(eng, o, name):
    if isinstance(o, BArr):
        if name in ("extend",):
            def ext(e, a, k):
                o.c = o.c + to_byt(e, a[0]).toks
            return BI("bytearray.extend", ext)
        if name == "append":
            def app(e, a, k):
                v = e.pyint(a[0])
                if not isinstance(v, int):
                    raise Unsupported("bytearray.append")
                o.c = o.c + (E(bytes([v])),)
            return BI("bytearray.append", app)
    if name == "decode":
        def dec(e, a, k):
            enc = a[0] if a else k.get("encoding", "utf-8")
            b = to_byt(e, o)
            err = k.get("errors", a[1] if len(a) > 1 else "strict")
            ts = norm_toks(e, b.toks)
            if not ts:
                return ""
            if len(ts) == 1 and isinstance(ts[0], E):
                v = ts[0].v
                if isinstance(v, bytes):
                    try:
                        return v.decode(enc, err)
                    except UnicodeDecodeError:
                        e.raise_("UnicodeDecodeError", "decode")
                if isinstance(v, Utf8) and enc.lower().replace("_", "-") in ("utf-8", "utf8"):
                    return v.s
                if isinstance(v, Short):
                    if err != "strict":
                        return e.T.fresh("junk", Str)
                    if e.nd():
                        e.raise_("UnicodeDecodeError", "decode")
                    return e.T.fresh("junk", Str)
            if all(isinstance(t, E) and isinstance(t.v, (bytes, Utf8, TextT)) for t in ts):
                ps = []
                for t in ts:
                    try:
                        ps.append(t.v.decode() if isinstance(t.v, bytes) else t.v.s if isinstance(t.v, Utf8) else t.v.v)
                    except UnicodeDecodeError:
                        raise Unsupported("decode of %r" % (ts,))
                return e.mkstr(ps)
            if err != "strict":
                return e.T.fresh("junk", Str)
            raise Unsupported("decode of %r" % (ts,))
        return BI("bytes.decode", dec)
    if name in ("lstrip", "rstrip", "strip", "split", "join"):
        def un(e, a, k):
            if name == "join" and len(a) == 1 and isinstance(o, bytes) and o == b"":
                def cat(it):
                    if isinstance(it, E):
                        return list(to_byt(e, it.v).toks)
                    if isinstance(it, For):
                        return [For(it.k, it.n, [y for x in it.items for y in cat(x)])]
                    if isinstance(it, IfI):
                        return [IfI(it.cond, [y for x in it.a for y in cat(x)], [y for x in it.b for y in cat(x)])]
                    raise Unsupported("bytes.join")
                r = norm_toks(e, [y for x in e.items_of(a[0]) for y in cat(x)])
                return b"" if not r else r[0].v if len(r) == 1 and isinstance(r[0], E) and isinstance(r[0].v, bytes) else Byt(r)
            b = norm_toks(e, to_byt(e, o).toks)
            if not b:
                b = (E(b""),)
            if len(b) == 1 and isinstance(b[0].v, bytes):
                r = getattr(b[0].v, name)(*a)
                return Lst(e, tuple(E(x) for x in r)) if isinstance(r, list) else r
            h = getattr(e, "byt_" + name, None)
            if h is not None:
                return h(b, a)
            raise Unsupported("bytes.%s" % name)
        return BI("bytes." + name, un)
    raise Unsupported("bytes.%s" % name)


class JoinStr:
    """sep.join(items) with a symbolic number of items"""
    __slots__ = ("sep", "items")

    def __init__(self, sep, items):
        self.sep, self.items = sep, tuple(items)

    @property
    def cls(self):
        return None

    def terms(self, eng):
        return self.items

    def subst(self, eng, sub):
        return JoinStr(self.sep, tuple(eng.subst_val(i, sub) for i in self.items))

    def numeric(self, eng):
        def ok(it):
            if isinstance(it, E):
                v = it.v
                if isinstance(v, FStr) and len(v.pieces) == 1:
                    v = v.pieces[0]
                return eng.is_int(v) or is_t(v) and v.sort() == R
            if isinstance(it, For):
                return all(ok(x) for x in it.items)
            return False
        return all(ok(i) for i in self.items)

    def count(self, eng):
        return eng.int_t(eng.count_items(self.items))

    def parts(self, eng):
        return list(self.items)

    def prove_eq(self, eng, o, what):
        import prove
        if isinstance(o, JoinStr):
            if o.sep != self.sep:
                return prove.Why("refuted", "%s: separators %r / %r" % (what, self.sep, o.sep))
            return eng.prove_items(self.items, o.items, what)
        return prove.Why("undecided", "%s: joined text versus %r" % (what, o))


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
ASCII_WS = " \t\n\r\x0b\x0c"


def pieces_of(e, o):
    if isinstance(o, str):
        return [o]
    if isinstance(o, JoinStr):
        return [o]
    if isinstance(o, FStr):
        return [q for p in o.pieces for q in pieces_of(e, p)] if any(is_t(p) and p.sort() == Str or isinstance(p, FStr) for p in o.pieces) else list(o.pieces)
    if is_t(o) and o.sort() == Str:
        l = e.lit_of(o)
        if l is not None:
            return [l]
        if z3.is_app(o) and o.decl().name() == "scat":
            return pieces_of(e, o.arg(0)) + pieces_of(e, o.arg(1))
        return [o]
    return [o]


def free_of(e, s, chars, where):
    """the symbolic string has none of the characters at its first ("l") / last ("r") / any ("all") place"""
    n = slen(s)
    c = lambda i: z3.And(*[code(s, i) != ord(x) for x in chars])
    if where == "l":
        return e.entails(z3.Or(n == 0, c(iv(0))))
    if where == "r":
        return e.entails(z3.Or(n == 0, c(n - 1)))
    i = e.T.fresh("i")
    with builtins_.prove_scope(e, i >= 0, i < n):
        return e.entails(c(i))


def nonempty(e, p):
    if isinstance(p, str):
        return p != ""
    if is_t(p) and p.sort() == Str:
        return e.entails(slen(p) > 0)
    if isinstance(p, JoinStr):
        return False
    return True


def str_strip(e, o, side, a):
    chars = a[0] if a and a[0] is not None else WS
    if not isinstance(chars, str):
        raise Unsupported("str.strip of symbolic characters")
    ps = pieces_of(e, o)
    for sd in ("r", "l"):
        if side not in (sd, "b"):
            continue
        while ps:
            x = ps[0] if sd == "l" else ps[-1]
            if isinstance(x, str):
                y = x.lstrip(chars) if sd == "l" else x.rstrip(chars)
                if y:
                    ps[0 if sd == "l" else -1] = y
                    break
                ps.pop(0 if sd == "l" else -1)
                continue
            if is_t(x) and x.sort() == Str:
                if not free_of(e, x, chars, sd):
                    if len(ps) > 1:
                        raise Unsupported("str.strip")
                    t = z3.Function("%sstrip!%s" % (sd, "-".join("%x" % ord(c) for c in sorted(set(chars)))), Str, Str)(x)
                    end = iv(0) if sd == "l" else slen(x) - 1
                    e.assume(z3.And(slen(t) >= 0, slen(t) <= slen(x), (t == x) == z3.Or(slen(x) == 0, z3.And(*[code(x, end) != ord(c) for c in chars]))))
                    e.assume(z3.Implies(t != x, slen(t) < slen(x)))
                    ps[0] = t
                    break
                if nonempty(e, x) or len(ps) == 1:
                    break
                if e.branch(slen(x) == 0):
                    ps.pop(0 if sd == "l" else -1)
                    continue
                break
            if isinstance(x, JoinStr):
                if not x.numeric(e) or not set(chars) <= set(WS):
                    raise Unsupported("str.strip")
                n = x.count(e)
                if e.entails(n >= 1) or e.branch(n >= 1):
                    break
                ps.pop(0 if sd == "l" else -1)
                continue
            if not e.is_int(x) and not (is_t(x) and x.sort() == R) or not set(chars) <= set(WS):
                raise Unsupported("str.strip")
            break
    return e.mkstr(ps) if len(ps) != 1 else (ps[0] if e.is_str(ps[0]) or isinstance(ps[0], JoinStr) else FStr(ps))


def str_split(e, o, a, chars=WS, regex=False):
    """split at runs of whitespace"""
    if a and a[0] is not None:
        raise Unsupported("str.split at a separator")
    ps = pieces_of(e, o)
    out, cur = [], []      # finished parts (item lists), current part

    def flush(force=False):
        if cur or force:
            out.append(E(e.mkstr(list(cur)) if len(cur) > 1 else cur[0] if cur and (e.is_str(cur[0]) or isinstance(cur[0], JoinStr)) else FStr(list(cur)) if cur else ""))
        del cur[:]
    for n, p in enumerate(ps):
        if isinstance(p, str):
            i = 0
            while i < len(p):
                if p[i] in chars:
                    while i < len(p) and p[i] in chars:
                        i += 1
                    flush(regex)
                    if regex and n == len(ps) - 1 and i == len(p):
                        out.append(E(""))
                        return Lst(e, tuple(out))
                else:
                    j = i
                    while j < len(p) and p[j] not in chars:
                        j += 1
                    cur.append(p[i:j])
                    i = j
            continue
        if is_t(p) and p.sort() == Str:
            if not free_of(e, p, chars, "all"):
                raise Unsupported("str.split")
            if not regex and not cur and not nonempty(e, p):
                if e.branch(slen(p) == 0):
                    continue
            cur.append(p)
            continue
        if isinstance(p, JoinStr):
            if cur or not p.numeric(e) or p.sep not in chars or not isinstance(p.sep, str) or len(p.sep) != 1:
                raise Unsupported("str.split of joined text")
            nx = ps[n + 1] if n + 1 < len(ps) else None
            if nx is not None and not (isinstance(nx, str) and nx[0] in chars):
                raise Unsupported("str.split of joined text")
            cnt = p.count(e)
            if not (e.entails(cnt >= 1) or e.branch(cnt >= 1)):
                raise Unsupported("str.split of an empty joined text")
            out.extend(p.parts(e))
            # the separator that follows ends the last part
            if nx is not None:
                ps[n + 1] = nx.lstrip(chars)
                if regex and not ps[n + 1] and n + 2 == len(ps):
                    out.append(E(""))
                    return Lst(e, tuple(out))
            continue
        if e.is_int(p) or is_t(p) and p.sort() == R:
            cur.append(p)
            continue
        raise Unsupported("str.split")
    flush(regex and not (ps and isinstance(ps[-1], JoinStr)))
    return Lst(e, tuple(out))


# ------------------------------------------------------------------ struct
def flat_args(eng, args):
    """arguments as item tree"""
    out = []
    for a in args:
        if isinstance(a, StarArg):
            out.extend(a.items)
        else:
            out.append(E(a))
    return out


def int_tok(eng, w, sg, v):
    if isinstance(v, bool):
        v = int(v)
    if is_t(v) and v.sort() == B:
        v = z3.If(v, iv(1), iv(0))
    if not eng.is_int(v):
        if hasattr(v, "to_int"):
            v = v.to_int(eng)
        else:
            eng.raise_("struct.error", "required argument is not an integer")
    t = eng.pyint(v)
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if sg else (0, (1 << (8 * w)) - 1)
    ok = z3.And(eng.int_t(t) >= lo, eng.int_t(t) <= hi)
    if not eng.entails(ok):
        if not eng.branch(ok):
            eng.raise_("struct.error", "argument out of range")
    return IntT(w, t, bool(sg))


def pack(eng, fmt, args):
    en, fs = eng.parse_fmt(fmt)
    items = flat_args(eng, args)
    out = []
    pos = 0

    def conv(it, w, sg):
        if isinstance(it, E):
            if sg == "f":
                return E(FltT(w, eng.real_t(it.v)))
            return E(int_tok(eng, w, sg, it.v))
        if isinstance(it, For):
            k = eng.T.fresh("k")
            import prove
            with prove.Scope(eng, k >= 0, k < eng.int_t(it.n)):
                b = [conv(x, w, sg) for x in eng.subst_items(it.items, it.k, k)]
            return For(k, it.n, b)
        raise Unsupported("struct arguments")
    for c, ch in fs:
        w, sg = _SZ[ch]
        if sg == "x":
            out.append(E(PadT(c)))
            continue
        if sg == "s":
            raise Unsupported("struct s format")
        if en == ">" and w > 1:
            raise Unsupported("big-endian struct")
        need = c
        while True:
            if isinstance(need, int) and need == 0:
                break
            if pos >= len(items):
                if eng.entails(eng.int_t(need) == 0):
                    break
                eng.raise_("struct.error", "pack expected more items")
            it = items[pos]
            if isinstance(it, E):
                if isinstance(need, int) or eng.entails(need >= 1):
                    out.append(conv(it, w, sg))
                    need = need - 1 if isinstance(need, int) else eng.norm(need - 1)
                    pos += 1
                    continue
                raise Unsupported("struct arguments")
            n = eng.int_t(eng.count_items([it]))
            if eng.entails(n == eng.int_t(need)):
                out.append(conv(it, w, sg))
                need = 0
                pos += 1
                continue
            raise Unsupported("struct arguments")
    if pos < len(items):
        n = eng.int_t(eng.count_items(items[pos:]))
        if not eng.entails(n == 0):
            eng.raise_("struct.error", "pack expected fewer items")
    return Byt(out)


def split(eng, toks, n):
    """(first n bytes, rest) or None if that would cut a token"""
    toks = list(toks)
    out = []
    need = z3.simplify(eng.int_t(n))
    guard = 0
    while True:
        guard += 1
        if guard > 200:
            return None
        if z3.is_int_value(need) and need.as_long() <= 0:
            break
        if not z3.is_int_value(need) and (not toks or not isinstance(toks[0], E)) and eng.entails(need == 0):
            break
        if not toks:
            if eng.entails(need <= 0):
                break
            return None
        it = toks[0]
        if isinstance(it, IfI):
            toks[0:1] = list(it.a if eng.branch(it.cond) else it.b)
            continue
        if isinstance(it, Gen):
            return None
        L = z3.simplify(tok_len(eng, it))
        if isinstance(it, E) and isinstance(it.v, bytes) and z3.is_int_value(need):
            k = min(need.as_long(), len(it.v))
            out.append(E(it.v[:k]))
            need = iv(need.as_long() - k)
            if k < len(it.v):
                toks[0] = E(it.v[k:])
            else:
                toks.pop(0)
            continue
        if L.eq(need) or eng.entails(L == need):
            out.append(it)
            toks.pop(0)
            need = iv(0)
            break
        if eng.entails(need == 0):
            break
        if eng.entails(L <= need):
            out.append(it)
            toks.pop(0)
            need = z3.simplify(need - L)
            continue
        if isinstance(it, E) and isinstance(it.v, PadT) and eng.entails(z3.And(need >= 0, need <= L)):
            out.append(E(PadT(need)))
            toks[0] = E(PadT(z3.simplify(L - need)))
            need = iv(0)
            break
        if isinstance(it, For):
            n1 = eng.int_t(it.n)
            # element-wise loops with elements of constant size: cut at a whole number of iterations
            ln = z3.simplify(toks_len(eng, it.items))
            if z3.is_int_value(ln) and ln.as_long() > 0:
                m = z3.simplify(need / ln)
                if z3.is_int_value(need) and need.as_long() % ln.as_long() == 0:
                    m = iv(need.as_long() // ln.as_long())
                if eng.entails(z3.And(m * ln == need, m >= 0, m <= n1)):
                    out.append(For(it.k, m, it.items))
                    k2 = eng.T.fresh("k")
                    toks[0] = For(k2, z3.simplify(n1 - m), eng.subst_items(it.items, it.k, k2 + m))
                    need = iv(0)
                    break
            if eng.entails(n1 <= 0):
                toks.pop(0)
                continue
            if eng.entails(n1 > 0):
                k2 = eng.T.fresh("k")
                toks[0:1] = list(eng.subst_items(it.items, it.k, iv(0))) + [For(k2, z3.simplify(n1 - 1), eng.subst_items(it.items, it.k, k2 + 1))]
                continue
        return None
    return tuple(out), tuple(toks)


def field_value(eng, toks, w, sg):
    """value of a w-byte integer/float from tokens"""
    toks = norm_toks(eng, toks)
    if len(toks) == 1 and isinstance(toks[0], E):
        v = toks[0].v
        if isinstance(v, IntT) and v.w == w and sg != "f":
            if bool(v.sg) == bool(sg) or eng.entails(eng.int_t(v.t) >= 0) and eng.entails(eng.int_t(v.t) < 1 << (8 * w - 1)):
                return v.t
        if isinstance(v, bytes) and len(v) == w and sg != "f":
            return int.from_bytes(v, "little", signed=bool(sg))
        if isinstance(v, FltT) and v.w == w and sg == "f":
            return v.t
    raise Unsupported("integer field read from %r" % (toks,))


def unpack_bytes(eng, fmt, b):
    en, fs = eng.parse_fmt(fmt)
    b = to_byt(eng, b)
    size = iv(0)
    for c, ch in fs:
        size = size + eng.int_t(c) * _SZ[ch][0]
    size = z3.simplify(size)
    n = z3.simplify(toks_len(eng, b.toks))
    if not eng.entails(n == size):
        if not eng.branch(n == size):
            eng.raise_("struct.error", "unpack requires a buffer of another size")
    toks = b.toks
    if len(toks) == 1 and isinstance(toks[0], E) and isinstance(toks[0].v, Short):
        out = []
        for c, ch in fs:
            for _ in range(c if isinstance(c, int) else 0):
                out.append(E(eng.T.fresh("junk")))
        return tuple(e.v for e in out)
    out = []
    for c, ch in fs:
        w, sg = _SZ[ch]
        if en == ">" and w > 1:
            raise Unsupported("big-endian struct")
        if sg == "x":
            r = split(eng, toks, eng.int_t(c))
            if r is None:
                raise Unsupported("struct padding over %r" % (toks,))
            toks = r[1]
            continue
        if isinstance(c, int):
            for _ in range(c):
                r = split(eng, toks, iv(w))
                if r is None:
                    raise Unsupported("struct field over %r" % (toks[:2],))
                toks = r[1]
                v = field_value(eng, r[0], w, sg)
                out.append(E(bool(v) if ch == "?" and isinstance(v, int) else v))
            continue
        r = split(eng, toks, eng.int_t(c) * w)
        if r is None:
            raise Unsupported("struct array over %r" % (toks[:2],))
        toks = r[1]

        def conv(it):
            if isinstance(it, E):
                if isinstance(it.v, bytes):
                    return [E(int.from_bytes(it.v[i:i + w], "little", signed=bool(sg))) for i in range(0, len(it.v), w)]
                return [E(field_value(eng, (it,), w, sg))]
            if isinstance(it, For):
                k = eng.T.fresh("k")
                b_ = [y for x in eng.subst_items(it.items, it.k, k) for y in conv(x)]
                return [For(k, it.n, b_)]
            raise Unsupported("struct array")
        out.extend(y for x in r[0] for y in conv(x))
    if all(isinstance(x, E) for x in out):
        return tuple(x.v for x in out)
    return Seq(out)


# ------------------------------------------------------------------- files
class FileW(Mut):
    """binary file open for writing at (symbolic) position pos0; c = tokens written"""
    __slots__ = ("pos0", "name")

    def __init__(self, eng, pos0=0, name=None):
        Mut.__init__(self, eng, ())
        self.pos0, self.name = pos0, name

    @property
    def cls(self):
        return None

    def tell(self, eng):
        return eng.norm(eng.int_t(self.pos0) + toks_len(eng, self.c))

    def put(self, eng, toks):
        self.c = self.c + tuple(toks)

    def attr(self, eng, name):
        if name == "write":
            def wr(e, a, k):
                b = to_byt(e, a[0])
                self.put(e, b.toks)
                return e.norm(toks_len(e, b.toks))
            return BI("file.write", wr)
        if name == "tell":
            return BI("file.tell", lambda e, a, k: self.tell(e))
        if name in ("close", "flush"):
            return BI("file." + name, lambda e, a, k: None)
        if name == "name":
            return self.name
        raise Unsupported("file.%s (writing)" % name)

    def close(self, eng):
        pass

    # loops
    def generic(self, eng, k, n):
        pre = self.c
        g = Gen(self.uid, eng.T.fresh("glen", I))
        eng.assume(g.length >= 0)
        self.c = (g,)
        return ("filew", pre, g)

    def effects(self, c):
        return c[1:] if c and isinstance(c[0], Gen) else c

    def finish(self, eng, pre, g, k, upto, nexts, fin, fint):
        groups = []
        for p in nexts:
            c = p.state.get(self)
            if c is None:
                continue
            if not (c and c[0] is g) or any(isinstance(x, Gen) for x in c[1:]):
                raise Unsupported("loop rewrites a file")
            app = [fin(i) for i in c[1:]]
            ts = [t for i in app for t in eng.terms_of(i)]
            if any(mentions(t, [g.length]) for t in ts):
                raise Unsupported("bytes written depend on the position in the file")
            if app:
                cd = z3.simplify(fint(z3.And(*p.conds))) if p.conds else z3.BoolVal(True)
                for gr in groups:
                    if eng.same_items(gr[0], app):
                        gr[1].append(cd)
                        break
                else:
                    groups.append((app, [cd]))
        items = []
        for app, cds in groups:
            cd = z3.simplify(z3.Or(*cds))
            items.extend(app if z3.is_true(cd) or len(cds) == len(nexts) else [IfI(cd, app)])
        self.c = pre + ((For(k, upto, items),) if items else ())


BArr.generic = FileW.generic
BArr.effects = FileW.effects
BArr.finish = FileW.finish


class EndIter:
    """marks the end of the tokens of the current iteration"""

    def __repr__(self):
        return "<end of iteration>"


class FileR(Mut):
    """binary file open for reading.  c = (consumed, rest, pos): token trees and
    byte position; `cut`: the file ends after that many bytes (None: complete)"""
    __slots__ = ("content", "cut", "name", "pos0", "seeking")

    def __init__(self, eng, content, cut=None, name=None, pos0=0):
        self.seeking = False
        self.content, self.cut, self.name, self.pos0 = tuple(content), cut, name, pos0
        Mut.__init__(self, eng, ((), self.content, eng.int_t(pos0)))

    @property
    def cls(self):
        return None

    def close(self, eng):
        pass

    def advance(self, eng, n):
        """tokens of the next n bytes; None if short (after moving to the end)"""
        if eng.loop_gen and self not in eng.loop_gen[-1]:
            raise MakeGeneric(self)
        done, rest, pos = self.c
        if done == "eof":
            return None
        n = z3.simplify(eng.int_t(n))
        if self.cut is not None:
            ok = pos + n <= self.cut
            if not eng.entails(ok):
                if not eng.branch(ok):
                    self.c = ("eof", (), z3.simplify(z3.If(pos > self.cut, pos, self.cut)))
                    return None
        if isinstance(n, z3.IntNumRef) and n.as_long() == 0:
            return ()
        if rest and any(isinstance(x, EndIter) for x in rest) and not [x for x in rest if not isinstance(x, EndIter)]:
            raise Unsupported("loop reads beyond the item of its iteration")
        end = [i for i, x in enumerate(rest) if isinstance(x, EndIter)]
        r = split(eng, rest[:end[0]] if end else rest, n)
        if r is None:
            total = None if end else toks_len(eng, rest)
            if total is not None:
                if rest and isinstance(rest[0], For) and not eng.loop_gen and not eng.entails(total >= n) and not eng.entails(total < n):
                    # the next item is the first one of a sequence, or the sequence is empty
                    fr = rest[0]
                    m = eng.int_t(fr.n)
                    if eng.branch(m > 0):
                        kk = eng.T.fresh("k")
                        first = eng.subst_items(fr.items, fr.k, iv(0))
                        more = eng.subst_items(fr.items, fr.k, kk + 1)
                        self.c = (done, tuple(first) + (For(kk, z3.simplify(m - 1), more),) + rest[1:], pos)
                    else:
                        self.c = (done, rest[1:], pos)
                    return self.advance(eng, n)
                short = total < n
                if eng.entails(short) or (not eng.entails(z3.Not(short)) and eng.branch(short)):
                    self.c = ("eof", (), z3.simplify(pos + total))
                    return None
            m = self.misaligned(eng, rest[:end[0]] if end else rest, n)
            if m == "retry":
                return self.advance(eng, n)
            if m:
                eng.lost = "read of %s bytes over %s" % (n, str(rest[:2])[:160])
                eng.raise_("MisalignedRead", "%s bytes from here end within a field: %s" % (n, str(rest[:2])[:160]))
            raise Unsupported("read of %s bytes over %s" % (n, str(rest[:2])[:160]))
        rr = r[1] + (rest[end[0]:] if end else ())
        self.c = (done + r[0], rr, z3.simplify(pos + n))
        return r[0]

    def misaligned(self, eng, toks, n):
        """does a read of n bytes run over the end of a field into the middle of the next one (or, for a seek,
        end at the end of a field for some values only)?  "retry": not on this path"""
        need, crossed = n, False
        for it in toks:
            if not isinstance(it, (E, For)):
                return False
            L = z3.simplify(tok_len(eng, it))
            if not eng.entails(L <= need):
                if self.seeking and not eng.entails(L != need):
                    return "retry" if eng.branch(L == need) else True
                if not crossed and eng.entails(need < L):
                    return False
                if crossed and eng.entails(need < L) or not eng.branch(L <= need):
                    return crossed and eng.branch(need > 0)
            need = z3.simplify(need - L)
            crossed = True
            if eng.entails(need == 0):
                return False
        return self.seeking and ("retry" if eng.branch(need == 0) else crossed)

    def avail(self, eng, pos_before, total_before):
        end = self.cut if self.cut is not None else z3.simplify(pos_before + total_before)
        return z3.simplify(z3.If(end > pos_before, end - pos_before, iv(0)))

    def read(self, eng, n):
        if n is None:
            raise Unsupported("read to end of file")
        done, rest, pos = self.c
        if done == "eof":
            return b""
        nn = eng.int_t(n)
        if not eng.entails(nn >= 0):
            raise Unsupported("negative read size")
        r = self.advance(eng, nn)
        if r is None:
            av = self.avail(eng, pos, toks_len(eng, [x for x in rest if not isinstance(x, EndIter)]) if self.cut is None else iv(0))
            eng.assume(av < nn)
            if eng.entails(av == 0):
                return b""
            return Byt((E(Short(av)),))
        b = Byt(r)
        v = b.single(eng) if r else b""
        return v if isinstance(v, bytes) else b

    def skip(self, eng, n):
        done, rest, pos = self.c
        n = z3.simplify(eng.int_t(n))
        if done == "eof":
            self.c = (done, rest, pos + n)
            return
        if not z3.is_int_value(n) and not eng.entails(n >= 0) or z3.is_int_value(n) and n.as_long() < 0:
            m = z3.simplify(-n)
            # move back over consumed tokens
            back = []
            need = m
            d = list(done)
            while not eng.entails(need == 0):
                if not d or isinstance(d[-1], Gen):
                    raise Unsupported("seek backwards")
                L = tok_len(eng, d[-1])
                if isinstance(d[-1], E) and isinstance(d[-1].v, bytes) and z3.is_int_value(need) and need.as_long() < len(d[-1].v):
                    v = d.pop().v
                    k = need.as_long()
                    d.append(E(v[:-k]))
                    back.insert(0, E(v[-k:]))
                    need = iv(0)
                    break
                if not eng.entails(L <= need):
                    raise Unsupported("seek backwards into a field")
                back.insert(0, d.pop())
                need = z3.simplify(need - L)
            self.c = (tuple(d), tuple(back) + rest, z3.simplify(pos - m))
            return
        if self.cut is not None and not eng.entails(pos + n <= self.cut):
            # seeking beyond the end is allowed; reading there gives nothing
            if not eng.branch(pos + n <= self.cut):
                self.c = ("eof", (), z3.simplify(pos + n))
                return
        self.seeking = True
        try:
            r = self.advance(eng, n)
        finally:
            self.seeking = False
        if r is None:
            self.c = ("eof", (), z3.simplify(pos + n))

    def attr(self, eng, name):
        if name == "read":
            return BI("file.read", lambda e, a, k: self.read(e, a[0] if a else None))
        if name == "tell":
            return BI("file.tell", lambda e, a, k: e.norm(self.c[2]))
        if name == "seek":
            def seek(e, a, k):
                wh = e.pyint(a[1]) if len(a) > 1 else e.pyint(k.get("whence", 0))
                off = a[0]
                if wh == 1:
                    self.skip(e, off)
                elif wh == 0:
                    o = e.int_t(off)
                    pos = self.c[2]
                    if self.c[0] != "eof" and e.entails(o == pos):
                        pass
                    else:
                        self.c = ((), self.content, e.int_t(self.pos0))
                        d = z3.simplify(o - e.int_t(self.pos0))
                        if not e.entails(d == 0):
                            self.skip(e, d)
                else:
                    raise Unsupported("seek from the end")
                return e.norm(self.c[2])
            return BI("file.seek", seek)
        if name == "name":
            return self.name
        if name in ("close", "flush"):
            return BI("file." + name, lambda e, a, k: None)
        if name == "readline":
            return BI("file.readline", lambda e, a, k: self.readline(e, a))
        raise Unsupported("file.%s (reading)" % name)

    def readline(self, eng, a):
        """the bytes up to and including the next newline (decimal numbers contain none)"""
        if a:
            raise Unsupported("readline with a size")
        done, rest, pos = self.c
        if done == "eof":
            return b""
        n, got = iv(0), False
        for it in rest:
            if isinstance(it, E) and isinstance(it.v, bytes):
                i = it.v.find(b"\n")
                if i >= 0:
                    n, got = n + i + 1, True
                    break
                n = n + len(it.v)
            elif isinstance(it, E) and isinstance(it.v, TextT):
                n = n + it.v.nbytes(eng)
            else:
                raise Unsupported("readline over %r" % (it,))
        n = z3.simplify(n)
        if self.cut is not None and not eng.entails(pos + n <= self.cut):
            raise Unsupported("readline over the end of the file")
        r = self.advance(eng, n)
        if r is None:
            raise Unsupported("readline")
        r = norm_toks(eng, r)
        return r[0].v if len(r) == 1 and isinstance(r[0].v, bytes) else Byt(r)

    # ---- loops: iteration k reads the k-th item of the loop the file is positioned at
    def generic(self, eng, k, n):
        pre = self.c
        done, rest, pos = pre
        if done == "eof":
            raise Unsupported("loop reads at the end of file")
        rest = list(rest)
        while rest and isinstance(rest[0], IfI):
            rest[0:1] = list(rest[0].a if eng.branch(rest[0].cond) else rest[0].b)
        if not rest or not isinstance(rest[0], For):
            raise Unsupported("loop reads %s" % str(rest[:1])[:100])
        f = rest[0]
        fn = eng.int_t(f.n)
        if not eng.entails(n <= fn):
            raise Unsupported("loop reads more items than written")
        its = eng.subst_items(f.items, f.k, k)
        blen_k = z3.simplify(toks_len(eng, f.items))
        posk = z3.simplify(pos + _sum_to(eng, f.k, k, blen_k))
        self.c = ((Gen(self.uid, posk),), tuple(its) + (EndIter(),) , posk)
        return ("filer", (done, tuple(rest), pos), (f, blen_k))

    def diff(self, c0, c1):
        return [] if c0 is c1 else [None]

    def effects(self, c):
        return ()

    def finish(self, eng, pre, g, k, upto, nexts, fin, fint):
        f, blen_k = g
        done, rest, pos = pre
        for p in nexts:
            c = p.state.get(self)
            if c is None:
                raise Unsupported("loop does not read its item on every path")
            if c[0] == "eof" or len(c[1]) != 1 or not isinstance(c[1][0], EndIter):
                if c[0] != "eof" and all(isinstance(x, EndIter) or eng.entails(tok_len(eng, x) == 0) for x in c[1]):
                    continue
                raise Unsupported("loop does not read exactly one item per iteration")
        fn = eng.int_t(f.n)
        nn = upto
        total = eng.T.sum(f.k, nn, blen_k)
        newpos = z3.simplify(pos + total)
        tail = ()
        if not eng.entails(nn == fn):
            k2 = eng.T.fresh("k")
            tail = (For(k2, z3.simplify(fn - nn), eng.subst_items(f.items, f.k, k2 + nn)),)
        self.c = (done + (For(f.k, nn, f.items),), tail + rest[1:], newpos)
        # non-negative sizes
        eng.assume_once(z3.And(total >= 0))

    def at_iteration(self, eng, k0):
        """position the file at the start of iteration k0 (exit path)"""
        done, rest, pos = self.c
        # the loop summary left the file after k0 items: the next For is the remainder
        if rest and isinstance(rest[0], For):
            f = rest[0]
            k2 = eng.T.fresh("k")
            fn = eng.int_t(f.n)
            rest = tuple(eng.subst_items(f.items, f.k, iv(0))) + (For(k2, z3.simplify(fn - 1), eng.subst_items(f.items, f.k, k2 + 1)),) + rest[1:]
            self.c = (done, rest, pos)


def _sum_to(eng, kv, k, body):
    if not mentions(body, [kv]):
        return k * body
    j = z3.Const("bj", I)
    return eng.T.sum(j, k, z3.substitute(body, (kv, j)))


# -------------------------------------------------------------- file system
class PathV:
    """a path; file contents by path are kept in a Mut so that open(...,'wb') then
    open(...,'rb') sees what was written"""

    def __init__(self, eng, content=None, cut=None, name="path"):
        self.files = []
        self.content, self.cut, self.nm = content, cut, name
        self.out = None
        self.locale = False

    @property
    def cls(self):
        return None

    def current(self, eng):
        return self.out.c if self.out is not None else self.content

    def truth(self, eng):
        return True

    def is_none(self, eng):
        return False


def open_(eng, a, k):
    p = a[0]
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if isinstance(p, int) and p == 0 and eng.stdin is not None:
        p = eng.stdin
    if not isinstance(p, PathV):
        raise Unsupported("open of %s" % type(p).__name__)
    if len(a) > 2:
        raise Unsupported("open arguments")
    if mode in ("rb", "br"):
        return FileR(eng, p.current(eng) or (), p.cut if p.out is None else None, p)
    if mode in ("wb", "bw", "w+b", "wb+"):
        p.out = FileW(eng, 0, p)
        return p.out
    t = getattr(eng, "open_text", None)
    if t is not None:
        return t(p, mode, k)
    raise Unsupported("open mode %s" % mode)


def install(eng):
    pass
