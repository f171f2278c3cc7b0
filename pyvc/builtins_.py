"""Models of Python builtins and of the pure parts of the standard library used by the
code (each model is an assumed contract on CPython / the library)."""
import ast
import re
import z3
from terms import *
from values import *
import interp
import interp2
from interp import Engine, CT
from interp2 import meth, AddrV

ASSUMED = set()      # names of modelled library functions that were used


def install(eng):
    Bt = {}
    obj = Cls("object", [], {}, "builtins")
    Bt["object"] = obj

    def exc(name, base):
        Bt[name] = Cls(name, [Bt[base]], {}, "builtins")
    Bt["BaseException"] = Cls("BaseException", [obj], {}, "builtins")
    for n, b in [("Exception", "BaseException"), ("SystemExit", "BaseException"), ("ArithmeticError", "Exception"), ("OverflowError", "ArithmeticError"),
                 ("ZeroDivisionError", "ArithmeticError"), ("LookupError", "Exception"), ("KeyError", "LookupError"), ("IndexError", "LookupError"),
                 ("ValueError", "Exception"), ("UnicodeError", "ValueError"), ("UnicodeDecodeError", "UnicodeError"), ("UnicodeEncodeError", "UnicodeError"), ("TypeError", "Exception"), ("AssertionError", "Exception"), ("NameError", "Exception"),
                 ("UnboundLocalError", "NameError"), ("AttributeError", "Exception"), ("EOFError", "Exception"), ("OSError", "Exception"), ("StopIteration", "Exception"), ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"), ("FileNotFoundError", "OSError"), ("struct.error", "Exception"), ("BufferError", "Exception"), ("MemoryError", "Exception")]:
        exc(n, b)
    exc("MisalignedRead", "BaseException")
    Bt["IOError"] = Bt["OSError"]
    Bt["EnvironmentError"] = Bt["OSError"]
    for n in ("int", "float", "bool", "str", "bytes", "list", "tuple", "dict", "set", "frozenset", "type", "bytearray", "slice", "range", "memoryview"):
        Bt[n] = Cls(n, [obj], {}, "builtins")
    Bt["bool"].bases = [Bt["int"]]
    Bt["bool"].mro = [Bt["bool"], Bt["int"], obj]
    for n in ("ABC", "Enum", "Collection", "Chunk_", "Generic"):
        Bt[n] = Cls(n, [obj], {}, "abc")
    Bt["IntEnum"] = Cls("IntEnum", [Bt["int"], Bt["Enum"]], {}, "enum")
    Bt["Ellipsis"] = Ellipsis
    Bt["NotImplemented"] = NotImplemented
    Bt["__debug__"] = True
    for n in list(NEW):
        Bt[n].d["__bi_new__"] = NEW[n]
    Bt["dict"].d["__bi_newsub__"] = new_dictsub
    for n, fn in FUNCS.items():
        Bt[n] = BI(n, fn)

    def opaque(name):
        return Opaque(name)
    Bt["__opaque__"] = opaque

    def cmod(name):
        d = {"UINT32_MAX": CV("uint32_t", 2 ** 32 - 1), "FNV1A_64_INIT": CV("Fnv64_t", 0xcbf29ce484222325), "FNV1_32_INIT": CV("Fnv32_t", 0x811c9dc5),
             "fnv_64a_buf": BI("fnv_64a_buf", fnv_64a_buf), "htole32": BI("htole32", htole(32)), "htole64": BI("htole64", htole(64)), "array": CArrayMod()}
        return Mod(name, d)
    Bt["__cmod__"] = cmod
    typing = {n: Bt["object"] for n in ("List", "Optional", "Tuple", "Union", "Dict", "Any", "BinaryIO", "TextIO", "Iterable", "Sequence", "Iterator", "Set", "AnyStr", "Generic", "Callable", "IO")}
    typing = {n: TypingV() for n in typing}
    typing["Collection"] = TypingV(Bt["Collection"])
    typing["cast"] = BI("cast", lambda e, a, k: a[1])
    eng.ext = {
        "typing": typing,
        "abc": {"ABC": Bt["ABC"], "abstractmethod": BI("abstractmethod", lambda e, a, k: a[0])},
        "enum": {"Enum": Bt["Enum"], "IntEnum": Bt["IntEnum"], "unique": BI("unique", lambda e, a, k: a[0])},
        "os": {"PathLike": TypingV()},
        "sys": {"byteorder": "little", "stderr": Opaque("stderr"), "stdout": Opaque("stdout"), "exit": BI("sys.exit", sys_exit)},
        "struct": {"calcsize": BI("calcsize", struct_calcsize), "pack": BI("pack", struct_pack), "unpack": BI("unpack", struct_unpack), "error": Bt["struct.error"]},
        "dataclasses": {"field": BI("field", lambda e, a, k: ("field", k)), "dataclass": BI("dataclass", lambda e, a, k: a[0])},
        "collections": {}, "collections.abc": {},
        "itertools": {"chain": BI("chain", it_chain)},
        "functools": {},
        "operator": {},
    }
    eng.while_rules = []
    return Bt


class TypingV:
    def __init__(self, cls=None):
        self.c_ = cls

    def getitem(self, eng, i):
        return self.c_ if self.c_ is not None else self

    def attr(self, eng, name):
        return self


class Opaque:
    """library object without a model: any use is out of the verifier's reach"""

    def __init__(self, name):
        self.name = name

    def call(self, eng, a, k):
        raise Unsupported("call of unmodelled %s" % self.name)

    def attr(self, eng, n):
        return Opaque(self.name + "." + n)


def sys_exit(e, a, k):
    raise PyRaise(ExcV(e.B["SystemExit"], tuple(a)))


def it_chain(e, a, k):
    its = []
    for x in a:
        its.extend(e.items_of(x))
    return Seq(its, "gen")


# --------------------------------------------------------- C level helpers
class CArrayMod:
    """cpython.array"""

    def attr(self, eng, name):
        if name == "array":
            return BI("array.array", self.new)
        if name == "resize":
            return BI("array.resize", self.resize)
        return Opaque("array." + name)

    @staticmethod
    def new(e, a, k):
        if a[0] not in ("I",):
            raise Unsupported("array type")
        return CArr(e)

    @staticmethod
    def resize(e, a, k):
        arr, n = a
        arr.c = (arr.c[0], e.int_t(n), arr.c[2])
        return CV("int", 0)


class CArr(Mut):
    """array('I'): c = (base function Int->Int, size, writes)"""
    __slots__ = ()

    def __init__(self, eng, c=None):
        Mut.__init__(self, eng, c or (None, iv(0), ()))

    def attr(self, eng, name):
        if name == "data":
            return self
        if name in ("as_uints", "as_ints", "as_ulongs"):
            if name != "as_uints":
                raise Unsupported("array view")
            return self
        raise Unsupported("array attribute " + name)

    def getitem(self, eng, i):
        t = eng.int_t(i)
        base, n, writes = self.c
        if not eng.entails(z3.And(t >= 0, t < n)):
            if not eng.branch(z3.And(t >= 0, t < n)):
                eng.raise_("MemoryError", "array index out of bounds")     # out-of-bounds C access: undefined
        if base == "gen":
            raise Unsupported("loop reads the array it writes")
        if base is None:
            if len(writes) and eng.entails(writes[-1][0] == t):
                return CV("uint32_t", writes[-1][1])
            raise Unsupported("read of uninitialised array element")
        v = base(t)
        for idx, val in writes:
            v = val if idx.eq(t) else z3.If(idx == t, val, v)
        return CV("uint32_t", z3.simplify(v))

    def setitem(self, eng, i, v):
        t = eng.int_t(i)
        base, n, writes = self.c
        if not eng.entails(z3.And(t >= 0, t < n)):
            if not eng.branch(z3.And(t >= 0, t < n)):
                eng.raise_("MemoryError", "array index out of bounds")
        self.c = (base, n, writes + ((t, eng.int_t(eng.c_coerce("uint32_t", v))),))

    def length(self, eng):
        return self.c[1]

    def generic(self, eng, k, n):
        pre = self.c
        self.c = ("gen", pre[1], ())
        return ("carr", pre, None)

    def effects(self, c):
        return tuple(c[2])

    def finish(self, eng, pre, g, k, upto, nexts, fin, fint):
        """writes at a running index (start + number of earlier writes), one per iteration at most"""
        ws = []
        for p in nexts:
            c = p.state.get(self)
            cd = z3.simplify(fint(z3.And(*(p.conds + p.facts)))) if p.conds or p.facts else z3.BoolVal(True)
            if c is None or not c[2]:
                continue
            if len(c[2]) != 1:
                raise Unsupported("several array writes per iteration")
            ws.append((cd, fin(c[2][0][0]), fin(c[2][0][1])))
        if not ws:
            self.c = pre
            return
        W = z3.simplify(z3.Or(*[w[0] for w in ws]))
        idx = eng.ite_chain([(w[0], w[1]) for w in ws])
        val = eng.ite_chain([(w[0], w[2]) for w in ws])
        i0 = z3.simplify(z3.substitute(idx, (k, iv(0))))
        for a in eng.T.binder_facts([i0]):
            pass
        new = z3.Function("arr!%d" % (eng.T.cnt + 1), I, I)
        eng.T.cnt += 1
        apps = apps_of(W, {"ubyte"})
        strs = []
        for a in apps:
            if not any(a.arg(0).eq(s) for s in strs):
                strs.append(a.arg(0))
        import prove
        kk = eng.T.fresh("kw")
        start = eng.T.fresh("i0")
        sub = lambda t: z3.substitute(t, (k, kk))
        done = False
        for s in strs:
            with prove.Scope(eng, kk >= 0, kk < upto):
                same = eng.entails(sub(W) == is_start(s, kk))
            if not same or not eng.entails(z3.And(upto >= 0, upto <= blen(s))):
                continue
            # number of starts before k is nchar(s, k); the running index must be base + that number
            nb = eng.T.sum(kk, k, z3.If(is_start(s, kk), iv(1), iv(0)))
            base0 = None
            sums = [a for a in eng.outer_binders(idx)]
            for a in sums:
                with prove.Scope(eng, k >= 0, k < upto):
                    b1 = eng.T.byname[a.decl().name()]
                    b2 = eng.T.byname[nb.decl().name()]
                    if b1.kind == "Sum" and eng.binder_eq(a, nb, b1, b2):
                        base0 = z3.simplify(idx - a)
            if base0 is None or mentions(base0, [k]) or eng._inside(base0, -1, None) and mentions(base0, [k]):
                continue
            q = z3.Const("qarr", I)
            v = z3.substitute(val, (k, boff(s, q - base0)))
            if eng.entails(upto == blen(s)):
                eng.assume(z3.ForAll([q], z3.Implies(z3.And(q - base0 >= 0, q - base0 < slen(s)), new(q) == v), patterns=[new(q)]))
                tot = eng.T.sum(kk, upto, z3.If(is_start(s, kk), iv(1), iv(0)))
                eng.assume(tot == slen(s))
                for a in sums:
                    an = z3.substitute(a, (k, upto))
                    eng.assume(z3.Implies(z3.BoolVal(True), an == tot))
            done = True
            break
        if not done:
            raise Unsupported("array written in a loop without an invariant")
        ASSUMED.add("UTF-8: bytes outside 0x80..0xBF start characters, in order (proved of UTF-8 in lemmas/Lemmas.lean)")
        self.c = (lambda t: new(t), pre[1], ())


def htole(w):
    def f(e, a, k):
        return e.c_coerce("uint%d_t" % w, a[0], True)
    return f


def fnv_64a_buf(e, a, k):
    """assumed contract on the C function (discharged separately by CBMC on the C source,
    see cbmc/): FNV-1a over `len` bytes of the little-endian buffer, starting from hval"""
    buf, n, h = a
    n = e.pyint(n)
    while isinstance(buf, AddrV) and isinstance(buf.v, AddrV):
        buf = buf.v
    if not isinstance(buf, AddrV) or not isinstance(n, int) or n not in (4, 8):
        raise Unsupported("fnv_64a_buf on this buffer")
    v = buf.v
    if not isinstance(v, CV) or CT[v.ct][0] // 8 < n:
        raise Unsupported("fnv_64a_buf buffer size")
    w = CT[v.ct][0]
    x = e.to_bv(v, w)
    hh = e.to_bv(h, 64)
    ASSUMED.add("fnv_64a_buf (C; contract discharged by CBMC)")
    return CV("Fnv64_t", e.fnv64(hh, x, n))


@meth
def fnv64(self, h, x, n):
    """the FNV-1a step over the n low bytes of x (little endian), as a named function:
    defined in vlib/cbmc_fnv.py, where the C code is proved to compute it"""
    f = z3.Function("FNV1A64_%d" % n, BV64, z3.BitVecSort(8 * n), BV64)
    h = f(h, z3.Extract(8 * n - 1, 0, x) if x.sort().size() > 8 * n else x)
    return h


# ------------------------------------------------------------------ types
def new_int(e, cls, a, k):
    if not a:
        return 0
    v = a[0]
    h = getattr(v, "to_int", None)
    if h is not None:
        return h(e)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            e.raise_("ValueError", "int")
    if isinstance(v, float):
        return int(v)
    if isinstance(v, FStr):
        if len(v.pieces) == 1 and e.is_int(v.pieces[0]):
            return e.pyint(v.pieces[0])
        raise Unsupported("int of text")
    return e.pyint(v)


def new_str(e, cls, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, str) or (is_t(v) and v.sort() == Str):
        return v
    h = getattr(v, "to_str", None)
    if h is not None:
        return h(e)
    return FStr([v])


def new_list(e, cls, a, k):
    return Lst(e, e.items_of(a[0]) if a else ())


def new_tuple(e, cls, a, k):
    if not a:
        return ()
    its = e.items_of(a[0])
    if all(isinstance(i, E) for i in its):
        return tuple(i.v for i in its)
    return Seq(its)


def pair_items(e, its):
    out = []

    def conv(it):
        if isinstance(it, E):
            v = it.v
            if not isinstance(v, tuple):
                v = e.unpack(v, 2)
            return E((v[0], v[1]))
        if isinstance(it, For):
            return For(it.k, it.n, [conv(x) for x in it.items])
        if isinstance(it, IfI):
            return IfI(it.cond, [conv(x) for x in it.a], [conv(x) for x in it.b])
        raise Unsupported("dict from list being built")
    return tuple(conv(i) for i in its)


def new_dict(e, cls, a, k):
    its = ()
    base = None
    if a:
        if isinstance(a[0], Dct):
            base, its = a[0].c.base, a[0].c.items
        else:
            its = pair_items(e, e.items_of(a[0]))
    its = tuple(its) + tuple(E((x, y)) for x, y in k.items())
    return Dct(e, DC(base, its))


def new_dictsub(e, cls, a, k):
    d = new_dict(e, cls, a, k)
    o = DctSub(e, d.c)
    o.cls = cls
    return o


class DctSub(Dct):
    """instance of a dict subclass"""
    __slots__ = ("cls",)


def new_set(e, cls, a, k):
    if not a:
        return St(e, DC(None, ()))
    if isinstance(a[0], DView):
        return St(e, DC(e.view_set(a[0]), ()))
    if isinstance(a[0], St):
        return St(e, a[0].c)

    def conv(it):
        if isinstance(it, E):
            return E((it.v, None))
        if isinstance(it, For):
            return For(it.k, it.n, [conv(x) for x in it.items])
        if isinstance(it, IfI):
            return IfI(it.cond, [conv(x) for x in it.a], [conv(x) for x in it.b])
        raise Unsupported("set of list being built")
    return St(e, DC(None, tuple(conv(i) for i in e.items_of(a[0]))))


def new_bool(e, cls, a, k):
    return e.truth_t(a[0]) if a else False


def new_float(e, cls, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return float(v)
    h = getattr(v, "to_float", None)
    if h:
        return h(e)
    if is_t(v) and v.sort() == R:
        return v
    if e.is_int(v):
        return z3.ToReal(e.int_t(v))
    raise Unsupported("float()")


def new_type(e, cls, a, k):
    return e.type_of(a[0])


def new_range(e, cls, a, k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if isinstance(st, CV):
        st = e.pyint(st)
    lo, hi = e.pyint(lo), e.pyint(hi)
    return Rng(lo, hi, st)


def new_slice(e, cls, a, k):
    return Sl(*a) if len(a) == 3 else Sl(a[0], a[1], None) if len(a) == 2 else Sl(None, a[0], None)


def new_bytes(e, cls, a, k):
    import files
    if not a:
        return b""
    if len(a) >= 2 or "encoding" in k:
        return files.encode(e, a[0], a[1] if len(a) > 1 else k["encoding"])
    return files.to_byt(e, a[0])


def new_bytearray(e, cls, a, k):
    import files
    return BArr(e, files.to_byt(e, a[0]).toks if a else ())


NEW = {"int": new_int, "str": new_str, "list": new_list, "tuple": new_tuple, "dict": new_dict, "set": new_set, "frozenset": new_set, "bool": new_bool, "float": new_float,
       "type": new_type, "range": new_range, "slice": new_slice, "bytes": new_bytes, "bytearray": new_bytearray}


# -------------------------------------------------------------- functions
def b_len(e, a, k):
    return e.length(a[0])


@meth
def length(self, v):
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if is_t(v) and v.sort() == Str:
        return self.norm_len(v)
    if isinstance(v, (Lst, Seq)):
        its = v.c if isinstance(v, Lst) else v.items
        return self.norm(self.count_items(its))
    if isinstance(v, Rng):
        n = self.count_items(self.range_items(v))
        return self.norm(n)
    if isinstance(v, (Dct, St)):
        r = self.dict_card(v)
        if isinstance(v, St):
            self.register_set(v, r)
        return r
    if isinstance(v, Obj):
        m = self.getattr_special(v, "__len__")
        if m is not None:
            return self.call(m, [], {})
        self.raise_("TypeError", "no len()")
    h = getattr(v, "length", None)
    if h is not None:
        m = None
        c = getattr(v, "cls", None)
        if isinstance(c, Cls):
            x, owner = c.lookup("__len__")
            if isinstance(x, Fn):
                return self.call(x, [v], {})
        r = h(self)
        return self.norm(r) if is_t(r) else r
    if isinstance(v, DView):
        return self.dict_card(v.d)
    raise Unsupported("len of %s" % type(v).__name__)


@meth
def norm_len(self, t):
    """length of a string term in normal form"""
    if z3.is_app(t) and t.decl().name() == "scat":
        return self.norm(self.int_t(self.norm_len(t.arg(0))) + self.int_t(self.norm_len(t.arg(1))))
    if z3.is_app(t) and t.decl().name() == "ssub":
        b, i, n = t.children()
        if self.entails(z3.And(i >= 0, n >= 0, i + n <= self.int_t(self.norm_len(b)))):
            return self.norm(n)
    s = self.lit_of(t)
    if s is not None:
        return len(s)
    return slen(t)


def minmax(which):
    def f(e, a, k):
        key = k.get("key")
        if key is not None:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            return e.minmax_coll(which, a[0], k.get("default", MISSING))
        cs = any(isinstance(x, CV) for x in a)
        if any(is_t(x) and x.sort() == R or isinstance(x, float) for x in a):
            r = e.real_t(a[0])
            for y in a[1:]:
                y = e.real_t(y)
                r = z3.If(r <= y, r, y) if which == "min" else z3.If(r >= y, r, y)
            return r
        if cs and all(isinstance(x, (CV, int)) for x in a):
            r = a[0]
            for y in a[1:]:
                d = e.c_binop("-", CV("int64_t", 0), CV("int64_t", 0))
                x_, y_ = e.int_t(r), e.int_t(y)
                c = (y_ < x_) if which == "min" else (y_ > x_)
                ws = [CT[v.ct] if isinstance(v, CV) else (32, True) for v in (r, y)]
                w = max(ws[0][0], ws[1][0])
                sg = [s for (ww, s) in ws if ww == w]
                rt = interp._BYW[(w, all(sg))]
                r = CV(rt, e.pyint(z3.If(c, y_, x_)))
            return r
        r = e.int_t(a[0])
        for y in a[1:]:
            y = e.int_t(y)
            c = (y < r) if which == "min" else (y > r)
            r = e.pick(c, y, r)
        return e.norm(r)
    return f


@meth
def real_t(self, v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return z3.RealVal(v)
    if is_t(v) and v.sort() == R:
        return v
    if isinstance(v, FloatV):
        return v.t
    return z3.ToReal(self.int_t(v))


class FloatV:
    pass


def b_sum(e, a, k):
    its = e.items_of(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return e.sum_items(its, start)


@meth
def sum_items(self, its, start):
    r = start
    for it in its:
        if isinstance(it, E):
            r = self.binop("+", r, it.v)
        elif isinstance(it, (For, IfI)):
            t = self.sum_term((it,))
            r = self.binop("+", r, self.norm(t))
        else:
            raise Unsupported("sum")
    return r


@meth
def sum_term(self, its):
    r = None
    for it in its:
        if isinstance(it, E):
            v = it.v
            t = v if is_t(v) and v.sort() in (I, R) else (z3.RealVal(v) if isinstance(v, float) else self.int_t(v))
        elif isinstance(it, For):
            t = self.T.sum(it.k, it.n, self.sum_term(it.items))
        elif isinstance(it, IfI):
            x = self.sum_term(it.a)
            y = self.sum_term(it.b) if it.b else (iv(0) if x.sort() == I else z3.RealVal(0))
            t = z3.If(it.cond, x, y)
        else:
            raise Unsupported("sum")
        r = t if r is None else r + t
    return r if r is not None else iv(0)


def b_all(e, a, k):
    return e.quant(e.items_of(a[0]), True)


def b_any(e, a, k):
    return e.quant(e.items_of(a[0]), False)


@meth
def quant(self, items, isall):
    """all()/any() over an item tree of truth values"""
    if all(isinstance(i, E) for i in items):
        ts = [self.truth_t(i.v) for i in items]
        if isall:
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if t is not True]
            return self.norm(z3.And(*ts)) if ts else True
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        return self.norm(z3.Or(*ts)) if ts else False
    b = self.T.fresh("all" if isall else "any", B)

    def univ(items, want):       # forall elements: truth == want
        cs = []
        for it in items:
            if isinstance(it, E):
                t = self.truth_t(it.v)
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                cs.append(t if want else z3.Not(t))
            elif isinstance(it, For):
                q = z3.Const("qa_%s" % it.k, I)
                body = z3.Implies(z3.And(q >= 0, q < it.n), univ(self.subst_items(it.items, it.k, q), want))
                p = self.patterns(body, q)
                cs.append(z3.ForAll([q], body, patterns=p) if p else z3.ForAll([q], body))
            elif isinstance(it, IfI):
                cs.append(z3.Implies(it.cond, univ(it.a, want)))
                if it.b:
                    cs.append(z3.Implies(z3.Not(it.cond), univ(it.b, want)))
            else:
                raise Unsupported("all/any")
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def exi(items, want):
        cs = []
        for it in items:
            if isinstance(it, E):
                t = self.truth_t(it.v)
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                cs.append(t if want else z3.Not(t))
            elif isinstance(it, For):
                w = self.T.fresh("w")
                cs.append(z3.And(w >= 0, w < it.n, exi(self.subst_items(it.items, it.k, w), want)))
            elif isinstance(it, IfI):
                cs.append(z3.And(it.cond, exi(it.a, want)))
                if it.b:
                    cs.append(z3.And(z3.Not(it.cond), exi(it.b, want)))
        return z3.Or(*cs) if cs else z3.BoolVal(False)
    if isall:
        self.assume(z3.Implies(b, univ(items, True)))
        self.assume(z3.Implies(z3.Not(b), exi(items, False)))
    else:
        self.assume(z3.Implies(z3.Not(b), univ(items, False)))
        self.assume(z3.Implies(b, exi(items, True)))
    return b


def b_enumerate(e, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    its = e.items_of(a[0])
    return Seq(e.zip_items([(Seq(e.range_items(Rng(start, None, 1))) if False else None), None], its, start), "gen") if False else Seq(e.enum_items(its, start), "gen")


@meth
def enum_items(self, its, start):
    out = []
    base = self.int_t(start)
    for it in its:
        if isinstance(it, E):
            out.append(E((self.norm(base), it.v)))
            base = base + 1
        elif isinstance(it, For) and len(it.items) == 1 and isinstance(it.items[0], E):
            out.append(For(it.k, it.n, [E((self.norm(base + it.k), it.items[0].v))]))
            base = base + z3.If(it.n > 0, it.n, iv(0))
        else:
            raise Unsupported("enumerate over a filtered sequence")
    return tuple(out)


def b_zip(e, a, k):
    return Seq(e.zip_items([e.items_of(x) for x in a]), "gen")


@meth
def zip_items(self, lists):
    if all(all(isinstance(i, E) for i in l) for l in lists):
        return tuple(E(tuple(x.v for x in t)) for t in zip(*lists))
    fs = []
    for l in lists:
        if len(l) == 1 and isinstance(l[0], For) and len(l[0].items) == 1 and isinstance(l[0].items[0], E):
            fs.append(l[0])
        else:
            raise Unsupported("zip of these sequences")
    n = fs[0].n
    for g in fs[1:]:
        if not self.entails(g.n == n):
            if self.entails(g.n <= n):
                n = g.n
            elif not self.entails(n <= g.n):
                n = z3.If(g.n < n, g.n, n)
    k = self.T.fresh("k")
    return (For(k, n, [E(tuple(self.subst_val(g.items[0].v, [(g.k, k)]) for g in fs))]),)


def b_map(e, a, k):
    acc = Lst(e, ())
    if len(a) == 2:
        def body(v):
            acc.c = acc.c + (E(e.call(a[0], [v], {})),)
        h = getattr(a[1], "map_with", None)
        if h is not None:
            return h(e, a[0])
        e.iterate(e.items_of(a[1]), body)
        return Seq(acc.c, "gen")
    raise Unsupported("map with several iterables")


def b_filter(e, a, k):
    acc = Lst(e, ())

    def body(v):
        if e.truth(e.call(a[0], [v], {}) if a[0] is not None else v):
            acc.c = acc.c + (E(v),)
    e.iterate(e.items_of(a[1]), body)
    return Seq(acc.c, "gen")


def b_isinstance(e, a, k):
    return e.isinst(a[0], a[1])


@meth
def type_of(self, v):
    Bt = self.B
    if isinstance(v, bool) or (is_t(v) and v.sort() == B):
        return Bt["bool"]
    if isinstance(v, (int, CV)) or (is_t(v) and (v.sort() == I or z3.is_bv(v))):
        return Bt["int"]
    if isinstance(v, float) or (is_t(v) and v.sort() == R):
        return Bt["float"]
    if isinstance(v, (str, FStr)) or (is_t(v) and v.sort() == Str):
        return Bt["str"]
    if isinstance(v, tuple) or isinstance(v, Seq) and v.kind == "tuple":
        return Bt["tuple"]
    if isinstance(v, Lst):
        return Bt["list"]
    if isinstance(v, Sl):
        return Bt["slice"]
    c = getattr(v, "cls", None)
    if isinstance(c, Cls):
        return c
    if isinstance(v, Dct):
        return Bt["dict"]
    if isinstance(v, St):
        return Bt["set"]
    if isinstance(v, Rng):
        return Bt["range"]
    if isinstance(v, bytes):
        return Bt["bytes"]
    if isinstance(v, BArr):
        return Bt["bytearray"]
    if isinstance(v, Cls):
        return Bt["type"]
    if v is None:
        return Cls("NoneType", [Bt["object"]], {}, "builtins")
    return None


@meth
def isinst(self, v, t):
    if isinstance(t, tuple):
        return any(self.isinst(v, x) for x in t)
    if isinstance(t, TypingV):
        t = t.c_ or self.B["object"]
    if not isinstance(t, Cls):
        raise Unsupported("isinstance of %s" % type(t).__name__)
    if v is None:
        return t is self.B["object"]
    c = self.type_of(v)
    if c is None:
        raise Unsupported("isinstance on %s" % type(v).__name__)
    h = getattr(v, "isinst", None)
    if h is not None:
        r = h(self, t)
        if r is not None:
            return r
    return t in c.mro


def b_issubclass(e, a, k):
    return isinstance(a[0], Cls) and a[1] in a[0].mro


def b_hasattr(e, a, k):
    o, n = a
    if n == "__iter__":
        if isinstance(o, (Lst, tuple, Seq, Dct, St, str, Rng)):
            return True
        if isinstance(o, (int, float, bool, CV)) or o is None:
            return False
        if is_t(o):
            return o.sort() == Str
        if isinstance(o, Obj):
            return o.cls.lookup("__iter__")[0] is not None
    try:
        e.getattr(o, n)
        return True
    except PyRaise:
        return False


def b_getattr(e, a, k):
    if len(a) == 3:
        try:
            return e.getattr(a[0], a[1])
        except PyRaise:
            return a[2]
    return e.getattr(a[0], a[1])


def b_ord(e, a, k):
    v = a[0]
    if isinstance(v, str):
        return CV("uint32_t", ord(v)) if False else ord(v)
    t = e.str_t(v)
    if z3.is_app(t) and t.decl().name() == "ssub" and z3.is_int_value(z3.simplify(t.arg(2))) and z3.simplify(t.arg(2)).as_long() == 1:
        s, i = t.arg(0), t.arg(1)
        if e.entails(z3.And(i >= 0, i < slen(s))):
            return e.code_at(s, i)
    if e.entails(slen(t) == 1):
        return code(t, 0)
    raise Unsupported("ord")


@meth
def code_at(self, s, i):
    while z3.is_app(s) and s.decl().name() == "ssub":
        i = s.arg(1) + i
        s = s.arg(0)
    r = code(s, z3.simplify(i))
    self.assume(z3.And(r >= 0, r < 0x110000))
    return r


def b_iter(e, a, k):
    v = a[0]
    h = getattr(v, "iter_items", None)
    if isinstance(v, Obj):
        m = e.getattr_special(v, "__iter__")
        if m is not None:
            return e.call(m, [], {})
    return Seq(e.items_of(v), "gen")


def b_next(e, a, k):
    v = a[0]
    h = getattr(v, "next", None)
    if h is not None:
        return h(e, a[1:] if len(a) > 1 else ())
    if isinstance(v, Seq):
        its = v.items
        if not its:
            if len(a) > 1:
                return a[1]
            e.raise_("StopIteration")
        if isinstance(its[0], E):
            v.items = its[1:]
            return its[0].v
    raise Unsupported("next()")


def b_pow(e, a, k):
    return e.binop("**", a[0], a[1])


def b_print(e, a, k):
    f = k.get("file")
    if f is None or isinstance(f, Opaque) and f.name == "stdout":
        f = getattr(e, "stdout", None)
    h = getattr(f, "do_print", None)
    if h is not None:
        return h(e, a, k)
    return None


def b_abs(e, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if is_t(v):
        return z3.If(v >= 0, v, -v)
    import arrays
    if isinstance(v, arrays.Arr):
        return arrays.a_abs(e, a, k)
    raise Unsupported("abs")


def b_reversed(e, a, k):
    its = e.items_of(a[0])
    if all(isinstance(i, E) for i in its):
        return Seq(tuple(reversed(its)), "gen")
    if len(its) == 1 and isinstance(its[0], For) and len(its[0].items) == 1 and isinstance(its[0].items[0], E):
        g = its[0]
        k2 = e.T.fresh("k")
        return Seq((For(k2, g.n, [E(e.subst_val(g.items[0].v, [(g.k, g.n - 1 - k2)]))]),), "gen")
    raise Unsupported("reversed")


def b_sorted(e, a, k):
    import order
    return order.b_sorted(e, a, k)


def b_open(e, a, k):
    import files
    return files.open_(e, a, k)


def b_callable(e, a, k):
    return isinstance(a[0], (Fn, Bound, BI, Cls))


def b_id(e, a, k):
    raise Unsupported("id()")


def b_divmod(e, a, k):
    return (e.binop("//", a[0], a[1]), e.binop("%", a[0], a[1]))


def b_chr(e, a, k):
    if isinstance(a[0], int):
        return chr(a[0])
    raise Unsupported("chr")


def b_repr(e, a, k):
    v = a[0]
    if isinstance(v, (str, bytes, bool, int, float)) or v is None:
        return repr(v)
    if isinstance(v, FStr) or e.is_str(v):
        return Opaque("repr of a string") if isinstance(v, FStr) else z3.Function("str_repr", Str, Str)(v)
    return FStr([v])


def b_format(e, a, k):
    spec = a[1] if len(a) > 1 else ""
    if not isinstance(spec, str):
        raise Unsupported("format")
    return e.mkstr([e.numfmt(spec, a[0])])


def b_round(e, a, k):
    v = a[0]
    n = a[1] if len(a) > 1 else None
    if isinstance(v, (int, float)) and (n is None or isinstance(n, int)):
        return round(v) if n is None else round(v, n)
    if e.is_int(v) and n is None:
        return e.pyint(v)
    if is_t(v) and v.sort() == R and isinstance(n, int):
        return z3.Function("rounded_f%d" % n, R, R)(v)
    raise Unsupported("round")


FUNCS = {"len": b_len, "min": minmax("min"), "max": minmax("max"), "sum": b_sum, "all": b_all, "any": b_any, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter,
         "isinstance": b_isinstance, "issubclass": b_issubclass, "hasattr": b_hasattr, "getattr": b_getattr, "ord": b_ord, "iter": b_iter, "next": b_next, "pow": b_pow, "print": b_print, "abs": b_abs,
         "reversed": b_reversed, "sorted": b_sorted, "open": b_open, "callable": b_callable, "id": b_id, "divmod": b_divmod, "chr": b_chr, "repr": b_repr, "format": b_format, "round": b_round}


# ------------------------------------------------------------------ struct
_SZ = {"b": (1, True), "B": (1, False), "?": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "f": (4, "f"), "d": (8, "f"), "x": (1, "x"), "s": (1, "s")}


@meth
def parse_fmt(self, fmt):
    """struct format -> (endian, [(count(int|term), char)])"""
    pieces = [fmt] if isinstance(fmt, (str, bytes)) else list(fmt.pieces) if isinstance(fmt, FStr) else None
    if pieces is None:
        s = self.lit_of(fmt) if is_t(fmt) else None
        if s is None:
            raise Unsupported("struct format")
        pieces = [s]
    endian = "@"
    out = []
    cnt = None
    first = True
    for p in pieces:
        if isinstance(p, bytes):
            p = p.decode()
        if isinstance(p, str):
            for ch in p:
                if first and ch in "<>=!@":
                    endian = ch
                    first = False
                    continue
                first = False
                if ch.isdigit():
                    if cnt is not None and not isinstance(cnt, int):
                        raise Unsupported("struct format")
                    cnt = (cnt or 0) * 10 + int(ch)
                elif ch == " ":
                    continue
                elif ch in _SZ:
                    out.append((1 if cnt is None else cnt, ch))
                    cnt = None
                else:
                    raise Unsupported("struct format char " + ch)
        else:
            first = False
            if cnt is not None:
                raise Unsupported("struct format")
            cnt = self.pyint(p)
            if is_t(cnt) and not self.entails(cnt >= 0):
                if self.branch(cnt < 0):
                    self.raise_("struct.error", "bad char in struct format")
    if endian == "@":
        # native alignment: padding bytes before fields that are not naturally aligned
        off, al = 0, []
        for i, (c, ch) in enumerate(out):
            if ch in "lL":
                raise Unsupported("native long")
            sz = _SZ[ch][0]
            if ch not in "xs" and sz > 1:
                if off is None:
                    raise Unsupported("native struct alignment")
                if off % sz:
                    al.append((sz - off % sz, "x"))
                    off += sz - off % sz
            al.append((c, ch))
            off = off + sz * c if isinstance(c, int) and off is not None else None
        out = al
        endian = "<"
    if endian in ("=",):
        endian = "<"
    if endian == "!":
        endian = ">"
    return endian, out


def exact_div(x, y):
    """q with x = q * y, syntactically"""
    x = z3.simplify(x)
    if x.eq(y):
        return iv(1)
    if z3.is_mul(x):
        ch = list(x.children())
        for i, c in enumerate(ch):
            if c.eq(y):
                r = None
                for d in ch[:i] + ch[i + 1:]:
                    r = d if r is None else r * d
                return r
    return None


def struct_calcsize(e, a, k):
    en, fs = e.parse_fmt(a[0])
    r = iv(0)
    for c, ch in fs:
        r = r + e.int_t(c) * _SZ[ch][0]
    return e.norm(r)


def struct_pack(e, a, k):
    import files
    return files.pack(e, a[0], a[1:])


def struct_unpack(e, a, k):
    import files
    return files.unpack_bytes(e, a[0], a[1])


# -------------------------------------------------------------- operators
@meth
def binop(self, op, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported((a if isinstance(a, Poison) else b).why)
    for x, y, rev in ((a, b, False), (b, a, True)):
        h = getattr(x, "binop", None)
        if h is not None:
            r = h(self, op, y, rev)
            if r is not NotImplemented:
                return r
    if isinstance(a, CV) or isinstance(b, CV):
        if isinstance(a, (CV, int)) and isinstance(b, (CV, int)):
            if op in ("/", "**"):
                if op == "**" and isinstance(a, int):
                    a, b = self.pyint(a), self.pyint(b)
                else:
                    raise Unsupported("C " + op)
            else:
                return self.c_binop(op, a, b)
        else:
            a = self.pyint(a) if isinstance(a, CV) else a
            b = self.pyint(b) if isinstance(b, CV) else b
    if isinstance(a, (EnumVal, SymEnum)):
        a = self.pyint(a)
    if isinstance(b, (EnumVal, SymEnum)):
        b = self.pyint(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if op == "/" and isinstance(a, int) and isinstance(b, int):
            raise Unsupported("int division")
        if op in ("//", "%", "/") and b == 0:
            self.raise_("ZeroDivisionError")
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b, "/": lambda: a / b,
                "^": lambda: a ^ b, "&": lambda: a & b, "|": lambda: a | b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
    # strings
    if op == "+" and self.is_str(a) and self.is_str(b):
        if isinstance(a, FStr) or isinstance(b, FStr):
            return self.mkstr((list(a.pieces) if isinstance(a, FStr) else [a]) + (list(b.pieces) if isinstance(b, FStr) else [b]))
        return self.cat([a, b])
    if op == "%" and isinstance(a, str):
        return self.percent(a, b)
    if op == "*" and isinstance(a, str) and isinstance(b, int):
        return a * b
    if isinstance(a, (bytes, BArr)) or isinstance(b, (bytes, BArr)):
        import files
        if op == "+":
            return files.Byt(files.to_byt(self, a).toks + files.to_byt(self, b).toks)
        if op == "*" and isinstance(a, bytes) and self.is_int(b):
            return files.repeat(self, a, b)
    if isinstance(a, (Lst, Seq, tuple)) and isinstance(b, (Lst, Seq, tuple)) and op == "+":
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        its = tuple(self.items_of(a)) + tuple(self.items_of(b))
        return Lst(self, its) if isinstance(a, Lst) else Seq(its)
    if isinstance(a, Lst) and op == "*" and self.is_int(b):
        its = a.c
        if len(its) == 1 and isinstance(its[0], E):
            k = self.T.fresh("k")
            return Lst(self, (For(k, self.int_t(b), [its[0]]),))
    if isinstance(a, St) and isinstance(b, St):
        return self.set_op(op, a, b)
    # numbers
    isr = any(isinstance(x, float) or (is_t(x) and x.sort() == R) for x in (a, b))
    if isr:
        x, y = self.real_t(a), self.real_t(b)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            return x / y
        if op == "**" and isinstance(b, int) and b == 2:
            return x * x
        raise Unsupported("real operator " + op)
    if self.is_int(a) and self.is_int(b):
        if op in ("^", "&", "|") and is_t(a) and a.sort() == B and is_t(b) and b.sort() == B:
            return self.norm({"^": z3.Xor, "&": z3.And, "|": z3.Or}[op](a, b))
        if op == "**":
            return self.int_pow(a, b)
        if op in ("<<",):
            return self.norm(self.int_t(a) * self.int_t(self.int_pow(2, b)))
        if op in ("&", "|", "^", ">>"):
            return self.py_bitop(op, a, b)
        x, y = self.int_t(a), self.int_t(b)
        if op == "+":
            return self.norm(x + y)
        if op == "-":
            return self.norm(x - y)
        if op == "*":
            return self.norm(x * y)
        if op in ("//", "%"):
            if not self.entails(y > 0):
                if self.branch(y == 0):
                    self.raise_("ZeroDivisionError")
                if not self.entails(y > 0):
                    raise Unsupported("division by negative")
            q = exact_div(x, y)
            if q is not None:       # y != 0 here
                return self.norm(q) if op == "//" else 0
            return self.norm(x / y) if op == "//" else self.norm(x % y)
        if op == "/":
            return z3.ToReal(x) / z3.ToReal(y)
    raise Unsupported("%s %s %s" % (type(a).__name__, op, type(b).__name__))


pow2 = z3.Function("pow2", I, I)


@meth
def int_pow(self, a, b):
    a_, b_ = self.pyint(a), self.pyint(b)
    if isinstance(a_, int) and isinstance(b_, int) and b_ >= 0:
        return a_ ** b_
    if a_ == 2 and is_t(b_):
        # 2**e for 0 <= e < 64, related to the 64-bit shift
        t = pow2(b_)
        self.assume_once(z3.And(t >= 1, *([z3.Implies(b_ <= i, t <= 2 ** i) for i in (31, 32, 62, 63, 64)] + [z3.Implies(b_ >= i, t >= 2 ** i) for i in (1, 31, 32, 63, 64)])))
        return t
    if isinstance(b_, int) and b_ == 2:
        return self.norm(self.int_t(a_) * self.int_t(a_))
    raise Unsupported("power")


@meth
def py_bitop(self, op, a, b):
    """Python-int bit operations on values known to be in 64-bit unsigned range"""
    x, y = self.int_t(a), self.int_t(b)
    if not self.entails(z3.And(x >= 0, x < 2 ** 64, y >= 0, y < 2 ** 64)):
        raise Unsupported("bit operation on unbounded ints")
    p, q = self.to_bv(x, 64), self.to_bv(y, 64)
    r = {"&": p & q, "|": p | q, "^": p ^ q, ">>": z3.LShR(p, q)}[op]
    return bvint(r)


@meth
def is_str(self, v):
    return isinstance(v, (str, FStr)) or (is_t(v) and v.sort() == Str)


_NUMSPEC = re.compile(r"^(?:\.(\d+))?([efgEFGdirs]?)$")


@meth
def numfmt(self, spec, x):
    """piece of text of the number x under a format specification: x itself when the digits
    determine every single-precision value, else the text of an uninterpreted rounding of x"""
    m = _NUMSPEC.match(spec)
    real = isinstance(x, float) or is_t(x) and x.sort() == R
    if not m:
        return Opaque("formatted text")
    prec, c = m.group(1), m.group(2)
    if self.is_str(x):
        return x if c in ("", "s") and prec is None else Opaque("formatted text")
    if c in ("", "s", "r") and prec is None:
        return x
    if c in ("d", "i"):
        if prec is None and self.is_int(x):
            return x
        return Opaque("formatted text")
    if not real:
        return Opaque("formatted text")
    n = int(prec) if prec is not None else 6
    if c in "gG" and c and n >= 9 or c in "eE" and c and n >= 8:
        return x
    f = z3.Function("rounded_%s%d" % (c or "g", n), R, R)
    return f(self.real_t(x))


@meth
def percent(self, fmt, args):
    args = args if isinstance(args, tuple) else (args,)
    ps, i, j = [], 0, 0
    cur = ""
    while i < len(fmt):
        if fmt[i] == "%":
            m = re.compile(r"%([-+ #0]*\d*)((?:\.\d+)?)([a-zA-Z%])").match(fmt, i)
            if not m:
                raise Unsupported("format " + fmt)
            if m.group(3) == "%":
                cur += "%"
            elif m.group(3) in "sdiefgEFGr":
                ps.append(cur)
                cur = ""
                if j >= len(args):
                    self.raise_("TypeError", "not enough arguments for format string")
                ps.append(self.numfmt(m.group(2) + m.group(3), args[j]) if not m.group(1) else Opaque("formatted text"))
                j += 1
            else:
                raise Unsupported("format " + fmt)
            i = m.end()
        else:
            cur += fmt[i]
            i += 1
    if j < len(args):
        self.raise_("TypeError", "not all arguments converted during string formatting")
    ps.append(cur)
    return self.mkstr(ps)


@meth
def compare(self, op, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported((a if isinstance(a, Poison) else b).why)
    if op in ("is", "is not"):
        r = self.identical(a, b)
        return r if op == "is" else (not r if isinstance(r, bool) else self.norm(z3.Not(r)))
    if op in ("in", "not in"):
        r = self.contains(b, a)
        return r if op == "in" else ((not r) if isinstance(r, bool) else self.norm(z3.Not(r)))
    if op in ("==", "!="):
        r = self.equal(a, b)
        return r if op == "==" else ((not r) if isinstance(r, bool) else self.norm(z3.Not(r)))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinstance(a, St) and isinstance(b, St):
        raise Unsupported("set comparison")
    if isinstance(a, Obj) or isinstance(b, Obj):
        import order
        return order.compare_obj(self, op, a, b)
    if isinstance(a, CV) and isinstance(b, CV) and is_t(a.t) and is_t(b.t) and z3.is_bv(a.t) and z3.is_bv(b.t) and a.ct == b.ct and not CT[a.ct][1]:
        x, y = a.t, b.t
        return self.norm({"<": z3.ULT(x, y), "<=": z3.ULE(x, y), ">": z3.UGT(x, y), ">=": z3.UGE(x, y)}[op])
    for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op])):
        h = getattr(x, "cmp", None)
        if h is not None:
            return h(self, o, y)
    if any(isinstance(x, float) or (is_t(x) and x.sort() == R) for x in (a, b)):
        x, y = self.real_t(a), self.real_t(b)
    elif self.is_int(a) and self.is_int(b):
        x, y = self.int_t(a), self.int_t(b)
    else:
        if a is None or b is None:
            self.raise_("TypeError", "ordering None")
        raise Unsupported("comparison %s %s %s" % (type(a).__name__, op, type(b).__name__))
    return self.norm({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])


@meth
def identical(self, a, b):
    if a is None or b is None:
        for x in (a, b):
            h = getattr(x, "is_none", None)
            if h is not None:
                return h(self)
        return a is None and b is None
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(b, bool) and is_t(a) and a.sort() == B:
        return a if b else self.norm(z3.Not(a))
    if isinstance(a, (EnumVal, SymEnum)) and isinstance(b, (EnumVal, SymEnum)):
        return self.equal(a, b)
    if isinstance(a, (Mut, Cls, Fn, Sl)) or isinstance(b, (Mut, Cls, Fn, Sl)):
        h = getattr(a, "same_object", None)
        return h(b) if h else a is b
    h = getattr(a, "same_object", None)
    if h:
        return h(b)
    raise Unsupported("identity test")


@meth
def equal(self, a, b):
    if a is b and not isinstance(a, float):
        return True
    for x, y in ((a, b), (b, a)):
        h = getattr(x, "equal", None)
        if h is not None:
            r = h(self, y)
            if r is not NotImplemented:
                return r
    if a is None or b is None:
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    if self.is_int(a) and self.is_int(b):
        if isinstance(a, CV) and isinstance(b, CV) and is_t(a.t) and z3.is_bv(a.t) and CT[a.ct] == CT[b.ct]:
            return self.norm(a.t == self.to_bv(b, CT[b.ct][0]))
        if isinstance(a, CV) and isinstance(b, (CV, int)) or isinstance(b, CV) and isinstance(a, int):
            w = max(CT[x.ct][0] if isinstance(x, CV) else 32 for x in (a, b))
            if any(isinstance(x, CV) and is_t(x.t) and z3.is_bv(x.t) for x in (a, b)) and all(not isinstance(x, CV) or not CT[x.ct][1] for x in (a, b)):
                return self.norm(self.to_bv(a, w) == self.to_bv(b, w))
        return self.norm(self.int_t(a) == self.int_t(b))
    if isinstance(a, (EnumVal, SymEnum)) or isinstance(b, (EnumVal, SymEnum)):
        if isinstance(a, EnumVal) and isinstance(b, EnumVal):
            return a.cls is b.cls and a.value == b.value
        return False
    if self.is_str(a) and self.is_str(b):
        if isinstance(a, FStr) or isinstance(b, FStr):
            raise Unsupported("comparison of formatted strings")
        x, y = self.str_t(a), self.str_t(b)
        if x.eq(y):
            return True
        for s, t in ((a, y), (b, x)):
            if isinstance(s, str) and s == "":
                # extensionality for the empty string
                self.assume_once(z3.Implies(slen(t) == 0, t == self.T.lit("")))
        return self.norm(x == y)
    if any(is_t(x) and x.sort() == R or isinstance(x, float) for x in (a, b)):
        if (self.is_int(a) or isinstance(a, float) or is_t(a)) and (self.is_int(b) or isinstance(b, float) or is_t(b)):
            return self.norm(self.real_t(a) == self.real_t(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        cs = [self.equal(x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return self.norm(z3.And(*cs)) if cs else True
    if isinstance(a, (Lst, Seq)) and isinstance(b, (Lst, Seq)) or isinstance(a, (Lst, Seq)) and isinstance(b, tuple) or isinstance(a, tuple) and isinstance(b, (Lst, Seq)):
        if isinstance(a, Lst) != isinstance(b, Lst):
            return False
        return self.items_equal(self.items_of(a), self.items_of(b))
    if isinstance(a, Obj):
        m, _ = a.cls.lookup("__eq__")
        if isinstance(m, Fn):
            return self.truth_t(self.call(m, [a, b], {}))
        return a is b
    if isinstance(a, (Cls, Fn, Mod)):
        return a is b
    if isinstance(a, (Dct, St)) and isinstance(b, (Dct, St)):
        if a.c is b.c:
            return True
        raise Unsupported("dict comparison")
    ta, tb = self.type_of(a), self.type_of(b)
    if ta is not None and tb is not None and ta is not tb:
        basic = {self.B[n] for n in ("int", "str", "list", "tuple", "dict", "set", "bytes", "float", "bool")}
        if ta in basic and tb in basic:
            return False
    raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))


@meth
def items_equal(self, x, y):
    if x is y or (len(x) == len(y) and all(p is q for p, q in zip(x, y))):
        return True
    for p, q in ((x, y), (y, x)):
        if len(p) == 0:
            ne = self.nonempty(q)
            return (not ne) if isinstance(ne, bool) else self.norm(z3.Not(ne))
    if all(isinstance(i, E) for i in x) and all(isinstance(i, E) for i in y):
        return self.equal(tuple(i.v for i in x), tuple(i.v for i in y))
    # general symbolic sequences: a boolean with the facts of pointwise equality
    if len(x) == 1 and len(y) == 1 and all(isinstance(l[0], For) and len(l[0].items) == 1 and isinstance(l[0].items[0], E) for l in (x, y)):
        g, h = x[0], y[0]
        b = self.T.fresh("eqseq", B)
        q = z3.Const("qe", I)
        ev = self.equal(self.subst_val(g.items[0].v, [(g.k, q)]), self.subst_val(h.items[0].v, [(h.k, q)]))
        ev = z3.BoolVal(ev) if isinstance(ev, bool) else ev
        gn, hn = z3.If(g.n > 0, g.n, iv(0)), z3.If(h.n > 0, h.n, iv(0))
        body = z3.Implies(z3.And(q >= 0, q < gn), ev)
        p = self.patterns(body, q)
        self.assume(z3.Implies(b, z3.And(gn == hn, z3.ForAll([q], body, patterns=p) if p else z3.ForAll([q], body))))
        w = self.T.fresh("w")
        self.assume(z3.Implies(z3.Not(b), z3.Or(gn != hn, z3.And(w >= 0, w < gn, z3.Not(z3.substitute(ev, (q, w)))))))
        return b
    raise Unsupported("list comparison")


@meth
def contains(self, c, v):
    h = getattr(c, "contains", None)
    if h is not None and not isinstance(c, Obj):
        return h(self, v)
    if isinstance(c, str):
        if isinstance(v, str):
            return v in c
        raise Unsupported("substring test")
    if isinstance(c, (Dct, St)):
        return self.dict_has(c, v)
    if isinstance(c, Obj):
        m = self.getattr_special(c, "__contains__")
        if m is not None:
            return self.truth_t(self.call(m, [v], {}))
    if isinstance(c, DView) and c.kind == "keys":
        return self.dict_has(c.d, v)
    if isinstance(c, Rng) and c.step == 1 and self.is_int(v):
        t = self.int_t(v)
        return self.norm(z3.And(t >= self.int_t(c.lo), t < self.int_t(c.hi)))
    items = self.items_of(c)

    def conv(it):
        if isinstance(it, E):
            return E(self.equal(it.v, v))
        if isinstance(it, For):
            return For(it.k, it.n, [conv(x) for x in it.items])
        if isinstance(it, IfI):
            return IfI(it.cond, [conv(x) for x in it.a], [conv(x) for x in it.b])
        raise Unsupported("membership in a list being built")
    return self.quant([conv(i) for i in items], False)


# ----------------------------------------------------------------- items
@meth
def idx_norm(self, i, n):
    """normalised non-negative index, raising IndexError when out of range"""
    i, n = self.int_t(i), self.int_t(n)
    if self.entails(i >= 0):
        pass
    elif self.entails(i < 0):
        i = i + n
    else:
        if self.branch(i < 0):
            i = i + n
    ok = z3.And(i >= 0, i < n)
    if not self.entails(ok):
        if not self.branch(z3.simplify(ok)):
            self.raise_("IndexError", "index out of range")
    return z3.simplify(i)


@meth
def slice_bounds(self, sl, n):
    """(lo, hi) of a step-1 slice over a sequence of length n: 0 <= lo <= hi' , hi <= n"""
    n = self.int_t(n)
    if sl.step is not None and sl.step != 1:
        raise Unsupported("slice step")

    def cl(x, default):
        if x is None:
            return default
        x = self.int_t(x)
        if self.entails(z3.And(x >= 0, x <= n)):
            return x
        if self.entails(x >= 0):
            return n if self.entails(x >= n) else self.pick(x > n, n, x)
        if len(self.exs) == 1:
            if self.branch(x < 0):
                return self.pick(x + n < 0, iv(0), x + n)
            return self.pick(x > n, n, x)
        y = z3.If(x < 0, z3.If(x + n < 0, iv(0), x + n), z3.If(x > n, n, x))
        return z3.simplify(y)
    lo, hi = cl(sl.lo, iv(0)), cl(sl.hi, n)
    return z3.simplify(lo), z3.simplify(hi)


@meth
def pick(self, c, a, b):
    """If(c, a, b); outside of loops as two paths, which keeps the terms small"""
    if len(self.exs) == 1:
        return a if self.branch(c) else b
    return z3.simplify(z3.If(c, a, b))


@meth
def getitem(self, o, i):
    if isinstance(o, Poison):
        raise Unsupported(o.why)
    h = getattr(o, "getitem", None)
    if h is not None and not isinstance(o, Obj):
        c = getattr(o, "cls", None)
        if isinstance(c, Cls):
            m, owner = c.lookup("__getitem__")
            if isinstance(m, Fn):
                return self.call(m, [o, i], {})
        return h(self, i)
    if isinstance(o, (Obj, DctSub)):
        m = self.getattr_special(o, "__getitem__")
        if m is not None:
            return self.call(m, [i], {})
        if isinstance(o, Obj):
            self.raise_("TypeError", "not subscriptable")
    if isinstance(o, (Dct,)):
        has, val = self.dict_get(o, i)
        if has is True or self.branch(has):
            return val()
        self.raise_("KeyError", "key")
    if self.is_str(o):
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                self.raise_("IndexError")
        t = self.str_t(o)
        n = self.length(o)
        if isinstance(i, Sl):
            lo, hi = self.slice_bounds(i, n)
            if isinstance(o, str) and z3.is_int_value(lo) and z3.is_int_value(hi):
                return o[lo.as_long():hi.as_long()]
            ln = z3.simplify(hi - lo)
            if not self.entails(ln >= 0):
                ln = z3.If(hi - lo > 0, hi - lo, iv(0))
            return self.mksub(t, lo, ln)
        j = self.idx_norm(i, n)
        return self.mksub(t, j, iv(1))
    if isinstance(o, tuple):
        if isinstance(i, Sl):
            lo, hi = self.slice_bounds(i, len(o))
            if z3.is_int_value(lo) and z3.is_int_value(hi):
                return o[lo.as_long():hi.as_long()]
            raise Unsupported("symbolic slice of tuple")
        j = self.pyint(i)
        if isinstance(j, int):
            try:
                return o[j]
            except IndexError:
                self.raise_("IndexError", "tuple index")
        raise Unsupported("symbolic tuple index")
    if isinstance(o, (Lst, Seq)):
        return self.list_get(o, i)
    if isinstance(o, Rng):
        return self.list_get(Seq(self.range_items(o)), i)
    if isinstance(o, bytes):
        if isinstance(i, int):
            return o[i]
        if isinstance(i, Sl):
            lo, hi = self.slice_bounds(i, len(o))
            if z3.is_int_value(lo) and z3.is_int_value(hi):
                return o[lo.as_long():hi.as_long()]
    if isinstance(o, Cls):
        if o.members is not None and isinstance(i, str):
            return o.members[i]
        return o
    raise Unsupported("subscript of %s" % type(o).__name__)


@meth
def mksub(self, s, lo, ln):
    """substring term, nested substrings and the whole string collapsed"""
    lo, ln = z3.simplify(self.int_t(lo)), z3.simplify(self.int_t(ln))
    if z3.is_int_value(ln) and ln.as_long() == 0:
        return ""
    while z3.is_app(s) and s.decl().name() == "ssub":
        lo = z3.simplify(s.arg(1) + lo)
        s = s.arg(0)
    if z3.is_int_value(lo) and lo.as_long() == 0 and self.entails(ln == self.int_t(self.norm_len(s))):
        return s
    return ssub(s, lo, ln)


@meth
def list_get(self, o, i):
    its = self.items_of(o)
    if isinstance(i, Sl):
        n = self.count_items(its)
        if all(isinstance(x, E) for x in its):
            lo, hi = self.slice_bounds(i, len(its))
            if z3.is_int_value(lo) and z3.is_int_value(hi):
                r = its[lo.as_long():hi.as_long()]
                return Lst(self, r) if isinstance(o, Lst) else Seq(r)
            if not its:
                return Lst(self, []) if isinstance(o, Lst) else Seq([])
            raise Unsupported("symbolic slice")
        lo, hi = self.slice_bounds(i, n)
        # drop concrete leading elements
        if z3.is_int_value(lo) and self.entails(hi == n):
            d = lo.as_long()
            if d <= len(its) and all(isinstance(x, E) for x in its[:d]):
                r = its[d:]
                return Lst(self, r) if isinstance(o, Lst) else Seq(r)
        if len(its) == 1 and isinstance(its[0], For) and len(its[0].items) == 1 and isinstance(its[0].items[0], E):
            g = its[0]
            k = self.T.fresh("k")
            r = (For(k, z3.simplify(hi - lo), [E(self.subst_val(g.items[0].v, [(g.k, lo + k)]))]),)
            return Lst(self, r) if isinstance(o, Lst) else Seq(r)
        raise Unsupported("slice of this list")
    n = self.count_items(its)
    if all(isinstance(x, E) for x in its):
        j = self.pyint(i)
        if isinstance(j, int):
            try:
                return its[j].v
            except IndexError:
                self.raise_("IndexError", "list index")
        t = self.idx_norm(i, n)
        for q, x in enumerate(its[:-1]):
            if self.branch(t == q):
                return x.v
        return its[-1].v
    j = self.idx_norm(i, n)
    base = iv(0)
    for x in its:
        if isinstance(x, E):
            if self.entails(j == base) or (not self.entails(j != base) and self.branch(j == base)):
                return x.v
            base = base + 1
        elif isinstance(x, For) and len(x.items) == 1 and isinstance(x.items[0], E):
            nn = z3.If(x.n > 0, x.n, iv(0)) if not self.entails(x.n >= 0) else x.n
            c = z3.simplify(z3.And(j >= base, j < base + nn))
            if x is its[-1] or self.entails(c) or self.branch(c):
                return self.subst_val(x.items[0].v, [(x.k, z3.simplify(j - base))])
            base = base + nn
        else:
            raise Unsupported("index into filtered list")
    raise Unsupported("list index")


@meth
def setitem(self, o, i, v):
    if isinstance(v, CV):
        v = self.pyint(v) if not hasattr(o, "setitem") else v
    h = getattr(o, "setitem", None)
    if h is not None and not isinstance(o, Obj):
        return h(self, i, v)
    if isinstance(o, Dct):
        o.c = DC(o.c.base, o.c.items + (E((i, v)),))
        return
    if isinstance(o, Lst):
        its = o.c
        if all(isinstance(x, E) for x in its):
            j = self.pyint(i)
            if isinstance(j, int):
                l = list(its)
                try:
                    l[j] = E(v)
                except IndexError:
                    self.raise_("IndexError")
                o.c = tuple(l)
                return
        # replace within a prefix of concrete elements / a single run
        j = self.idx_norm(i, self.count_items(its))
        if len(its) == 1 and isinstance(its[0], For) and len(its[0].items) == 1 and isinstance(its[0].items[0], E):
            g = its[0]
            m = self.merge(g.k == j, v, g.items[0].v)
            if m is None and self.is_str(v):
                m = z3.If(g.k == j, self.str_t(v), self.str_t(g.items[0].v))
            if m is not None:
                o.c = (For(g.k, g.n, [E(m)]),)
                return
        raise Unsupported("list element assignment")
    if isinstance(o, Obj):
        m = self.getattr_special(o, "__setitem__")
        if m is not None:
            return self.call(m, [i, v], {})
    raise Unsupported("item assignment on %s" % type(o).__name__)


# ------------------------------------------------------------ dictionaries
class DView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def iter_items(self, eng):
        if self.kind == "keys":
            return eng.dict_keys(self.d)
        its = eng.dict_keys(self.d)

        def conv(it):
            if isinstance(it, E):
                has, val = eng.dict_get(self.d, it.v)
                return E(val() if self.kind == "values" else (it.v, val()))
            if isinstance(it, For):
                return For(it.k, it.n, [conv(x) for x in it.items])
            raise Unsupported("dict view")
        return tuple(conv(i) for i in its)


def _ksort(e, v):
    if e.is_str(v):
        return Str
    if e.is_int(v):
        return I
    raise Unsupported("dict key of type %s" % type(v).__name__)


@meth
def key_t(self, v):
    return self.str_t(v) if self.is_str(v) else self.int_t(v)


@meth
def dfun(self, dc):
    """functional view of dict content, creating it (with its defining axioms) if needed"""
    if not dc.items:
        if dc.base is not None:
            return dc.base
        return None
    if dc.memo is not None and self.live(dc.memo[1]):
        return dc.memo[0]
    its = dc.items
    if dc.base is not None or len(its) != 1 or not isinstance(its[0], For):
        return None
    # binders / guards
    ks, guards, rng = [], [], []
    cur = its
    while True:
        if len(cur) != 1:
            raise Unsupported("dict built by this loop %r" % (cur,))
        it = cur[0]
        if isinstance(it, For):
            q = z3.Const("qd%d" % len(ks), I)
            ks.append(q)
            rng.append(z3.And(q >= 0, q < it.n))
            cur = self.subst_items(it.items, it.k, q)
        elif isinstance(it, IfI) and not it.b:
            guards.append(it.cond)
            cur = it.a
        elif isinstance(it, E):
            kv, vv = it.v
            break
        else:
            raise Unsupported("dict built by this loop %r" % (cur,))
    kt = self.key_t(kv)
    ks_sort = kt.sort()
    n = self.T.cnt = self.T.cnt + 1
    nm = "d!%d" % n
    hasf = z3.Function("has_" + nm, ks_sort, B)
    wit = [z3.Function("wit%d_%s" % (i, nm), ks_sort, I) for i in range(len(ks))]
    s = z3.Const("qkey", ks_sort)
    dom = z3.And(*(rng + guards))
    pats = self.patterns(kt, ks[0]) if len(ks) == 1 else []
    lw = z3.And(hasf(kt), wit[0](kt) >= ks[0] if len(ks) == 1 else z3.BoolVal(True))
    b1 = z3.Implies(dom, lw)
    if not pats:
        p = [kt] if all(mentions(kt, [k]) for k in ks) and not z3.is_const(kt) and kt.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
        pats = p
    self.assume(z3.ForAll(ks, b1, patterns=pats) if pats else z3.ForAll(ks, b1))
    w = [f(s) for f in wit]
    sub = list(zip(ks, w))
    b2 = z3.Implies(hasf(s), z3.And(z3.substitute(dom, *sub), z3.substitute(kt, *sub) == s))
    self.assume(z3.ForAll([s], b2, patterns=[hasf(s)] + [x for x in w]))
    card = self.T.fresh("card")
    cnt = self.count_items(its)
    cnt = self.int_t(cnt)
    self.assume(z3.And(card >= 0, card <= cnt, z3.Implies(cnt > 0, card > 0)))
    if len(ks) == 1 and not guards:
        q = ks[0]
        distinct = z3.Implies(z3.And(card == cnt, rng[0]), wit[0](kt) == q)
        self.assume(z3.ForAll([q], distinct, patterns=pats) if pats else z3.ForAll([q], distinct))
        j1, j2 = self.T.fresh("dup"), self.T.fresh("dup")
        self.assume(z3.Implies(card != cnt, z3.And(j1 >= 0, j1 < j2, z3.substitute(rng[0], (q, j2)), z3.substitute(kt, (q, j1)) == z3.substitute(kt, (q, j2)))))

    def val(key):
        t = self.key_t(key)
        return self.subst_val(vv, [(k, f(t)) for k, f in zip(ks, wit)])
    d = DFun(lambda key: hasf(self.key_t(key)), val, card, its, nm)
    dc.memo = (d, self.token())
    return d


@meth
def dict_get(self, d, key):
    """(has: bool/Bool, val: thunk)"""
    c = d.c
    h = getattr(c, "lookup_key", None)
    if h is not None:
        return h(self, key)
    its = c.items
    if len(its) == 1 and isinstance(its[0], For):
        if c.base is not None:
            raise Unsupported("lookup in updated dict")
        f = self.dfun(c)
        return f.has(key), lambda: f.val(key)
    for it in reversed(its):
        if not isinstance(it, E):
            raise Unsupported("lookup in dict built by several loops")
        e = self.equal(it.v[0], key)
        if e is True:
            return True, (lambda v=it.v[1]: v)
        if e is not False:
            if self.branch(e):
                return True, (lambda v=it.v[1]: v)
    if c.base is not None:
        return c.base.has(key), lambda: c.base.val(key)
    return False, lambda: None


@meth
def dict_has(self, d, key):
    c = d.c
    if getattr(c, "lookup_key", None) is None and c.items and all(isinstance(i, E) for i in c.items):
        # no case split: the key is one of these
        es = [self.equal(i.v[0], key) for i in c.items]
        if any(x is True for x in es):
            return True
        es = [x for x in es if x is not False]
        if c.base is not None:
            h = c.base.has(key)
            if h is True:
                return True
            es += [] if h is False else [h]
        return z3.Or(*es) if len(es) > 1 else es[0] if es else False
    return self.dict_get(d, key)[0]


@meth
def dict_card(self, d):
    c = d.c
    h = getattr(c, "card", None)
    if h is not None and not isinstance(c, DC):
        return c.card
    if not c.items:
        return c.base.card if c.base is not None else 0
    if all(isinstance(i, E) for i in c.items) and c.base is None:
        keys = []
        for i in c.items:
            k = i.v[0]
            dup = False
            for k2 in keys:
                e = self.equal(k, k2)
                if e is True or (e is not False and self.branch(e)):
                    dup = True
                    break
            if not dup:
                keys.append(k)
        return len(keys)
    if c.base is not None and all(isinstance(i, E) for i in c.items):
        n = self.int_t(c.base.card)
        seen = []
        for i in c.items:
            k = i.v[0]
            dup = False
            for k2 in seen:
                e = self.equal(k, k2)
                if e is True or (e is not False and self.branch(e)):
                    dup = True
                    break
            if dup:
                continue
            if not self.branch(c.base.has(k)):
                n = n + 1
            seen.append(k)
        return self.norm(n)
    f = self.dfun(c)
    if f is None:
        raise Unsupported("size of this dict")
    return f.card


@meth
def dict_keys(self, d):
    """keys in iteration order (sets: some order)"""
    c = d.c
    h = getattr(c, "keys_items", None)
    if h is not None:
        return h(self)
    if not c.items and c.base is not None:
        if c.base.seq is not None:
            return c.base.seq
        return self.some_order(c.base)
    if c.base is None and all(isinstance(i, E) for i in c.items):
        out = []
        for i in c.items:
            k = i.v[0]
            if not any(self.equal(k, o.v) is True for o in out):
                for o in out:
                    e = self.equal(k, o.v)
                    if e is not False and e is not True and self.branch(e):
                        break
                else:
                    out.append(E(k))
        return tuple(out)
    f = self.dfun(c)
    if f is None:
        raise Unsupported("iteration over this dict")

    def keys(it):
        if isinstance(it, E):
            return E(it.v[0])
        if isinstance(it, For):
            return For(it.k, it.n, [keys(x) for x in it.items])
        return IfI(it.cond, [keys(x) for x in it.a], [keys(x) for x in it.b])
    cnt = self.int_t(self.count_items(c.items))
    if isinstance(d, Dct) and self.entails(f.card == cnt):
        return tuple(keys(i) for i in c.items)
    return self.some_order(f)


@meth
def some_order(self, f):
    """enumeration of the keys of a functional dict in an unspecified order"""
    memo = self.__dict__.setdefault("_orders", {})
    key = f.name
    if key in memo and self.live(memo[key][2]):
        kf, card, _ = memo[key]
    else:
        srt = f.ksort if hasattr(f, "ksort") else Str
        kf = z3.Function("ord_" + f.name, I, srt)
        pos = z3.Function("pos_" + f.name, srt, I)
        q = z3.Const("qo", I)
        s = z3.Const("qs_", srt)
        card = self.int_t(f.card)
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < card), z3.And(f.has(kf(q)), pos(kf(q)) == q)), patterns=[kf(q)]))
        self.assume(z3.ForAll([s], z3.Implies(f.has(s), z3.And(pos(s) >= 0, pos(s) < card, kf(pos(s)) == s)), patterns=[pos(s)] if False else [f.has(s)]))
        memo[key] = (kf, card, self.token())
    k = self.T.fresh("k")
    return (For(k, card, [E(kf(k))]),)


@meth
def minmax_coll(self, which, c, default):
    if isinstance(c, DView) and c.kind == "values":
        f = c.d.c.base if not c.d.c.items else self.dfun(c.d.c)
        if f is None:
            its = self.items_of(c)
        else:
            info = self.valinfo(f)
            self.minmax_info(f, info, which)
            self.pigeonhole(f, info)
            m = info[which]
            card = self.int_t(f.card)
            if default is MISSING:
                if self.branch(card == 0):
                    self.raise_("ValueError", "%s() of empty" % which)
                return m
            return self.norm(z3.If(card > 0, m, self.int_t(default)))
    else:
        its = self.items_of(c)
    if all(isinstance(i, E) for i in its):
        if not its:
            if default is MISSING:
                self.raise_("ValueError", "empty")
            return default
        return FUNCS[which](self, [i.v for i in its], {}) if len(its) > 1 else its[0].v
    # symbolic sequence of integers
    m = self.T.fresh(which)
    cnt = self.int_t(self.count_items(its))
    b = self.quant_pred(its, lambda v: (self.int_t(v) <= m) if which == "max" else (self.int_t(v) >= m), True)
    self.assume(z3.Implies(cnt > 0, b))
    ex = self.quant_pred(its, lambda v: self.int_t(v) == m, False)
    self.assume(z3.Implies(cnt > 0, ex))
    if default is MISSING:
        if self.branch(cnt <= 0):
            self.raise_("ValueError", "%s() of empty" % which)
        return m
    return self.norm(z3.If(cnt > 0, m, self.int_t(default)))


@meth
def quant_pred(self, items, pred, isall):
    cs = []
    for it in items:
        if isinstance(it, E):
            cs.append(pred(it.v))
        elif isinstance(it, For):
            if isall:
                q = z3.Const("qp_%s" % it.k, I)
                body = z3.Implies(z3.And(q >= 0, q < it.n), self.quant_pred(self.subst_items(it.items, it.k, q), pred, True))
                p = self.patterns(body, q)
                cs.append(z3.ForAll([q], body, patterns=p) if p else z3.ForAll([q], body))
            else:
                w = self.T.fresh("w")
                cs.append(z3.And(w >= 0, w < it.n, self.quant_pred(self.subst_items(it.items, it.k, w), pred, False)))
        elif isinstance(it, IfI):
            x, y = self.quant_pred(it.a, pred, isall), self.quant_pred(it.b, pred, isall)
            cs.append(z3.If(it.cond, x, y))
    if isall:
        return z3.And(*cs) if cs else z3.BoolVal(True)
    return z3.Or(*cs) if cs else z3.BoolVal(False)


@meth
def valinfo(self, f):
    memo = self.__dict__.setdefault("_valinfo", {})
    ent = memo.get(f.name)
    if ent is None or not all(self.live(t) for t in ent.get("tok", ())):
        ent = memo[f.name] = {"tok": [self.token()]}
    else:
        ent["tok"].append(self.token())
    return ent


@meth
def view_set(self, v):
    """set(d.values()) / set(d.keys()) as a functional set"""
    f = v.d.c.base if not v.d.c.items else self.dfun(v.d.c)
    if f is None:
        raise Unsupported("set of dict view")
    if v.kind == "keys":
        return f
    if v.kind != "values":
        raise Unsupported("set of items")
    info = self.valinfo(f)
    if "set" in info:
        return info["set"]
    n = self.T.cnt = self.T.cnt + 1
    nm = "vs!%d" % n
    hasf = z3.Function("has_" + nm, I, B)
    wit = z3.Function("wit_" + nm, I, Str)
    s, x = z3.Const("qv", Str), z3.Const("qx", I)
    card = self.T.fresh("card")
    has = f.has(s)
    self.assume(z3.ForAll([s], z3.Implies(has, hasf(self.int_t(f.val(s)))), patterns=[has]))
    self.assume(z3.ForAll([x], z3.Implies(hasf(x), z3.And(f.has(wit(x)), self.int_t(f.val(wit(x))) == x)), patterns=[hasf(x)]))
    self.assume(z3.And(card >= 0, card <= self.int_t(f.card), z3.Implies(self.int_t(f.card) > 0, card > 0)))
    d = DFun(lambda key: hasf(self.int_t(key)), lambda key: None, card, None, nm)
    info["set"] = d
    info["hasf"] = hasf
    info["card"] = card
    self.pigeonhole(f, info)
    return d


@meth
def minmax_info(self, f, info, which):
    if which not in info:
        m = self.T.fresh(which)
        s = z3.Const("qv", Str)
        has, val = f.has(s), self.int_t(f.val(s))
        rel = val <= m if which == "max" else val >= m
        self.assume(z3.ForAll([s], z3.Implies(z3.And(self.int_t(f.card) > 0, has), rel), patterns=[has]))
        w = self.T.fresh("mw", Str)
        self.assume(z3.Implies(self.int_t(f.card) > 0, z3.And(f.has(w), self.int_t(f.val(w)) == m)))
        info[which] = m


@meth
def pigeonhole(self, f, info):
    """lemma (finite sets of integers): S in [0, m] and |S| = m+1 imply S = {0..m}; |S| <= m+1"""
    if "set" in info and ("max" in info or "min" in info) and "done" not in info:
        self.minmax_info(f, info, "max")
        self.minmax_info(f, info, "min")
        info["done"] = True
        x = z3.Const("qx", I)
        mx, mn, card = info["max"], info["min"], info["card"]
        ne = self.int_t(f.card) > 0
        cover = z3.ForAll([x], z3.Implies(z3.And(x >= mn, x <= mx), info["hasf"](x)), patterns=[info["hasf"](x)])
        self.assume(z3.Implies(z3.And(ne, card == mx - mn + 1), cover))
        self.assume(z3.Implies(ne, card <= mx - mn + 1))
        self.assume(z3.Implies(z3.Not(ne), card == 0))
        ASSUMED.add("lemma: a set of integers within [a,b] has b-a+1 elements iff it is {a..b} (pigeonhole; proved in lemmas/Lemmas.lean)")
        # converse: covering sets have that cardinality
        y = self.T.fresh("gap")
        self.assume(z3.Implies(z3.And(ne, card != mx - mn + 1), z3.And(y >= mn, y <= mx, z3.Not(info["hasf"](y)))))


@meth
def register_set(self, st, card):
    """remembers membership and size of a set, for the counting lemma (order.filter_lemma)"""
    c = st.c
    if c.base is None and all(isinstance(i, E) for i in c.items):
        ks = [i.v[0] for i in c.items]
        if all(self.is_int(x) for x in ks):
            ts = [self.int_t(x) for x in ks]
            self.set_reg.append((lambda x, ts=ts: z3.Or(*[x == t for t in ts]) if ts else z3.BoolVal(False), self.int_t(card)))
        return
    f = c.base if not c.items else self.dfun(c)
    if f is not None:
        def has(x, f=f):
            try:
                return f.has(x)
            except z3.Z3Exception:
                return z3.BoolVal(False)
        self.set_reg.append((has, self.int_t(card)))


@meth
def set_op(self, op, a, b):
    raise Unsupported("set operation")


def prove_scope(e, *fs):
    from prove import Scope
    return Scope(e, *fs)


# ------------------------------------------------------- methods of builtins
@meth
def builtin_attr(self, o, name):
    if isinstance(o, (str, FStr)) or (is_t(o) and o.sort() == Str):
        m = STRM.get(name)
        if m is None:
            raise Unsupported("str.%s" % name)
        return BI("str." + name, lambda e, a, k: m(e, o, a, k))
    if isinstance(o, Lst):
        m = LSTM.get(name)
        if m is None:
            raise Unsupported("list.%s" % name)
        return BI("list." + name, lambda e, a, k: m(e, o, a, k))
    if isinstance(o, Dct):
        if isinstance(o, DctSub):
            v, owner = o.cls.lookup(name)
            if v is not None:
                return self.bind_attr(v, o, o.cls)
        m = DCTM.get(name)
        if m is None:
            raise Unsupported("dict.%s" % name)
        return BI("dict." + name, lambda e, a, k: m(e, o, a, k))
    if isinstance(o, St):
        m = STM.get(name)
        if m is None:
            raise Unsupported("set.%s" % name)
        return BI("set." + name, lambda e, a, k: m(e, o, a, k))
    if isinstance(o, (bytes, BArr)):
        import files
        return files.bytes_attr(self, o, name)
    if isinstance(o, tuple) and name == "index":
        raise Unsupported("tuple.index")
    if isinstance(o, ExcV):
        if name == "args":
            return o.args
    if o is None:
        self.raise_("AttributeError", "None has no attribute %s" % name)
    if self.is_int(o) or isinstance(o, float) or (is_t(o) and o.sort() == R):
        raise Unsupported("number attribute %s" % name)
    raise Unsupported("attribute %s of %s" % (name, type(o).__name__))


def s_encode(e, o, a, k):
    import files
    return files.encode(e, o, a[0] if a else k.get("encoding", "utf-8"))


def s_join(e, o, a, k):
    import files
    its = e.items_of(a[0])
    if all(isinstance(i, E) for i in its):
        ps = []
        for n, i in enumerate(its):
            if n:
                ps.append(o)
            ps.append(i.v)
        return e.mkstr(ps)
    return files.JoinStr(o, its)


def s_format(e, o, a, k):
    import string
    if not isinstance(o, str):
        raise Unsupported("str.format")
    ps, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(o):
        ps.append(text)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit() and int(field) < len(a):
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported("str.format")
        ps.append(e.numfmt(spec or "", v) if conv in (None, "s") else Opaque("formatted text"))
    return e.mkstr(ps)


def s_pred(nm):
    """str methods on a symbolic string: exact for prefix and suffix tests, else an uninterpreted
    function (str -> str) or predicate named after the method and its concrete arguments"""
    def f(e, o, a, k):
        if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) for x in a):
            return getattr(o, nm)(*a)
        if isinstance(o, FStr) or not e.is_str(o) or k:
            raise Unsupported("str." + nm)
        t = e.str_t(o)
        if nm in ("startswith", "endswith"):
            if len(a) != 1 or not isinstance(a[0], (str, tuple)) or isinstance(a[0], tuple) and not all(isinstance(x, str) for x in a[0]):
                raise Unsupported("str." + nm)
            alts = []
            for p in (a[0] if isinstance(a[0], tuple) else (a[0],)):
                n = len(p)
                off = z3.IntVal(0) if nm == "startswith" else slen(t) - n
                alts.append(z3.And([slen(t) >= n] + [code(t, z3.simplify(off + i)) == ord(c) for i, c in enumerate(p)]))
            return e.norm(z3.Or(alts))
        if nm == "isascii" and not a:
            return e.norm(blen(t) == slen(t))
        if not all(isinstance(x, (str, int)) for x in a):
            raise Unsupported("str." + nm)
        pred = nm.startswith("is")
        return z3.Function("str_%s%s" % (nm, "".join("_%r" % (x,) for x in a)), Str, z3.BoolSort() if pred else Str)(t)
    return f


def s_lstrip(e, o, a, k):
    if isinstance(o, str):
        return o.lstrip(*a)
    import files
    return files.str_strip(e, o, "l", a)


def s_rstrip(e, o, a, k):
    if isinstance(o, str):
        return o.rstrip(*a)
    import files
    return files.str_strip(e, o, "r", a)


def s_strip(e, o, a, k):
    if isinstance(o, str):
        return o.strip(*a)
    import files
    return files.str_strip(e, o, "b", a)


def s_split(e, o, a, k):
    if isinstance(o, str):
        return Lst(e, tuple(E(x) for x in o.split(*a)))
    import files
    return files.str_split(e, o, a)


def s_count(e, o, a, k):
    raise Unsupported("str.count")


STRM = {"encode": s_encode, "join": s_join, "format": s_format,
        "lstrip": s_lstrip, "rstrip": s_rstrip, "strip": s_strip, "split": s_split}
for _n in ("startswith", "endswith", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "replace", "removeprefix", "removesuffix", "zfill", "expandtabs",
           "isalpha", "isdigit", "isspace", "isalnum", "isupper", "islower", "istitle", "isnumeric", "isdecimal", "isidentifier", "isprintable", "isascii"):
    STRM[_n] = s_pred(_n)


def l_append(e, o, a, k):
    v = a[0]
    if isinstance(v, CV):
        v = e.pyint(v)
    if isinstance(v, tuple):
        v = tuple(e.pyint(x) if isinstance(x, CV) else x for x in v)
    o.c = o.c + (E(v),)


def l_extend(e, o, a, k):
    o.c = o.c + tuple(e.items_of(a[0]))


def l_insert(e, o, a, k):
    if isinstance(a[0], int) and a[0] == 0:
        o.c = (E(a[1]),) + o.c
        return
    raise Unsupported("list.insert")


def l_copy(e, o, a, k):
    return Lst(e, o.c)


def l_pop(e, o, a, k):
    if not a and o.c and isinstance(o.c[-1], E):
        v = o.c[-1].v
        o.c = o.c[:-1]
        return v
    raise Unsupported("list.pop")


def l_reverse(e, o, a, k):
    o.c = b_reversed(e, [o], {}).items


def l_uns(nm):
    def f(e, o, a, k):
        raise Unsupported("list." + nm)
    return f


LSTM = {"append": l_append, "extend": l_extend, "insert": l_insert, "copy": l_copy, "pop": l_pop, "reverse": l_reverse, "index": l_uns("index"), "sort": l_uns("sort"), "clear": lambda e, o, a, k: setattr(o, "c", ())}


def d_get(e, o, a, k):
    has, val = e.dict_get(o, a[0])
    default = a[1] if len(a) > 1 else k.get("default")
    if has is True:
        return val()
    if has is False:
        return default
    if e.branch(has):
        return val()
    return default


def d_setdefault(e, o, a, k):
    has = e.dict_has(o, a[0])
    if has is True or (has is not False and e.branch(has)):
        return e.dict_get(o, a[0])[1]()
    e.setitem(o, a[0], a[1] if len(a) > 1 else None)
    return a[1] if len(a) > 1 else None


def d_update(e, o, a, k):
    if a and isinstance(a[0], Dct):
        if a[0].c.base is not None:
            raise Unsupported("dict.update")
        o.c = DC(o.c.base, o.c.items + a[0].c.items)
    elif a:
        o.c = DC(o.c.base, o.c.items + pair_items(e, e.items_of(a[0])))
    for x, y in k.items():
        o.c = DC(o.c.base, o.c.items + (E((x, y)),))


def d_copy(e, o, a, k):
    return Dct(e, o.c)


DCTM = {"get": d_get, "keys": lambda e, o, a, k: DView(o, "keys"), "values": lambda e, o, a, k: DView(o, "values"), "items": lambda e, o, a, k: DView(o, "items"),
        "setdefault": d_setdefault, "update": d_update, "copy": d_copy}


def st_add(e, o, a, k):
    o.c = DC(o.c.base, o.c.items + (E((a[0], None)),))


def st_update(e, o, a, k):
    n = new_set(e, None, a, {})
    if n.c.base is not None:
        raise Unsupported("set.update")
    o.c = DC(o.c.base, o.c.items + n.c.items)


STM = {"add": st_add, "update": st_update}
