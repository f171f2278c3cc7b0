"""Runtime values of the symbolic interpreter.

Immutable symbolic data is built from z3 terms and tuples; every mutable
run-time object is a Mut whose whole state is one immutable content `.c`, so a
state snapshot is a map Mut -> content.
"""
import z3
from terms import *


class Mut:
    __slots__ = ("c", "uid")

    def __init__(self, eng, c):
        self.c = c
        eng.uid += 1
        self.uid = eng.uid
        eng.heap.append(self)


class Frame(Mut):
    __slots__ = ("fn", "ctypes", "glob", "outer", "node")


class Lst(Mut):            # c: tuple of items
    __slots__ = ()


class Dct(Mut):            # c: DC
    __slots__ = ()


class St(Mut):             # set: c: DC with values None
    __slots__ = ()


class Obj(Mut):            # c: dict of attributes (copy on write)
    __slots__ = ("cls",)

    def __init__(self, eng, cls, attrs=None):
        Mut.__init__(self, eng, dict(attrs or {}))
        self.cls = cls


class BArr(Mut):           # bytearray: c: tuple of tokens
    __slots__ = ()


# ------------------------------------------------------------- list items
class E:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "E(%r)" % (self.v,)


class For:
    """for k in [0, n): items   (k is a unique z3 constant)"""
    __slots__ = ("k", "n", "items")

    def __init__(self, k, n, items):
        self.k, self.n, self.items = k, n, tuple(items)

    def __repr__(self):
        return "For(%s<%s: %r)" % (self.k, self.n, self.items)


class IfI:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b=()):
        self.cond, self.a, self.b = cond, tuple(a), tuple(b)

    def __repr__(self):
        return "If(%s: %r | %r)" % (self.cond, self.a, self.b)


class Gen:
    """unknown prefix of a list/tape during a generic loop iteration"""
    __slots__ = ("uid", "length", "used")

    def __init__(self, uid, length):
        self.uid, self.length, self.used = uid, length, False

    def __repr__(self):
        return "Gen(%d)" % self.uid


class Seq:
    """immutable sequence with symbolic items (tuple / iterator / view)"""
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="tuple"):
        self.items, self.kind = tuple(items), kind

    def __repr__(self):
        return "Seq(%r)" % (self.items,)


class Rng:
    """range object lo, hi, step (step concrete +-1 or other int)"""
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Sl:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class DC:
    """dict content: base functional dict (DFun or None) + inserted pairs (item tree of (key, value))"""
    __slots__ = ("base", "items", "memo")

    def __init__(self, base, items):
        self.base, self.items, self.memo = base, tuple(items), None


class DFun:
    """functional dictionary: has(key)->Bool, val(key)->value, card term, keysort
    seq: item tree of keys in iteration order (or None)"""
    __slots__ = ("has", "val", "card", "seq", "name", "vals")

    def __init__(self, has, val, card, seq=None, name=""):
        self.has, self.val, self.card, self.seq, self.name = has, val, card, seq, name
        self.vals = None


class CV:
    """C integer value"""
    __slots__ = ("ct", "t")

    def __init__(self, ct, t):
        self.ct, self.t = ct, t

    def __repr__(self):
        return "CV(%s,%s)" % (self.ct, self.t)


class FStr:
    """string with embedded non-string pieces (numbers, ...)"""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return "FStr%r" % (self.pieces,)


class Poison:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class Cls:
    def __init__(self, name, bases, d, module):
        self.name, self.bases, self.d, self.module = name, bases, d, module
        self.mro = self._mro()
        self.cattrs = {}
        for b in reversed(self.mro[1:]):
            if isinstance(b, Cls):
                self.cattrs.update(b.cattrs)
        self.members = None

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
                elif c in s:
                    s.remove(c)

    def lookup(self, name, after=None):
        skip = after is not None
        for c in self.mro:
            if skip:
                if c is after:
                    skip = False
                continue
            if name in c.d:
                return c.d[name], c
        return None, None

    @property
    def qual(self):
        return self.module + "." + self.name

    def __repr__(self):
        return "<class %s>" % self.name


class EnumVal:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class SymEnum:
    """enum member given by a symbolic integer value"""
    __slots__ = ("cls", "t")

    def __init__(self, cls, t):
        self.cls, self.t = cls, t


class Fn:
    __slots__ = ("node", "glob", "name", "module", "cls", "closure", "decos", "defaults", "kwdefaults", "c_func")

    def __init__(self, node, glob, name, module, cls=None, closure=None):
        self.node, self.glob, self.name, self.module, self.cls, self.closure = node, glob, name, module, cls, closure
        self.decos = ()
        self.defaults = ()
        self.kwdefaults = ()

    @property
    def qual(self):
        return self.module + "." + (self.cls.name + "." if self.cls is not None else "") + self.name

    def __repr__(self):
        return "<fn %s>" % self.qual


class Prop:
    __slots__ = ("get", "set")

    def __init__(self, get, set=None):
        self.get, self.set = get, set


class StaticM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Bound:
    __slots__ = ("self", "fn")

    def __init__(self, self_, fn):
        self.self, self.fn = self_, fn


class BI:
    """builtin function / method implemented by the verifier (a modelled contract)"""
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<builtin %s>" % self.name


class Mod:
    __slots__ = ("name", "d")

    def __init__(self, name, d):
        self.name, self.d = name, d


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcV:
    """exception instance"""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%r" % (self.cls.name, tuple(str(a)[:60] for a in self.args))


class StarArg:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Missing:
    def __repr__(self):
        return "<missing>"


MISSING = Missing()


# --------------------------------------------------------- control transfers
class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Infeasible(Exception):
    pass


class Hoist(Exception):
    def __init__(self, cond, level):
        self.cond, self.level = cond, level
