"""Assumed contract of argparse: the contract under proof fixes a command line (options with values,
positional values, in any order argparse accepts) in eng.argv = (options, positionals); parse_args resolves it
against the arguments the program declared."""
import z3
from terms import *
from values import *
from builtins_ import ASSUMED

KNOWN = {"help", "metavar", "type", "default", "choices", "nargs", "action", "dest", "required"}


class Arg:
    def __init__(self, flags, kw):
        self.flags, self.kw = flags, kw

    @property
    def dest(self):
        if "dest" in self.kw:
            return self.kw["dest"]
        if not self.flags[0].startswith("-"):
            return self.flags[0]
        long = [f for f in self.flags if f.startswith("--")]
        return (long or self.flags)[0].lstrip("-").replace("-", "_")


class Parser(Mut):
    """c: tuple of Arg"""
    __slots__ = ()

    @property
    def cls(self):
        return None

    def attr(self, eng, name):
        if name == "add_argument":
            def add(e, a, k):
                if not a or not all(isinstance(x, str) for x in a) or set(k) - KNOWN:
                    raise Unsupported("add_argument")
                self.c = self.c + (Arg(tuple(a), dict(k)),)
            return BI("add_argument", add)
        if name == "parse_args":
            return BI("parse_args", lambda e, a, k: self.parse(e, a, k))
        raise Unsupported("ArgumentParser.%s" % name)

    def value(self, e, arg, v):
        t = arg.kw.get("type")
        if t is e.B["int"] and not e.is_int(v):
            raise Unsupported("argument type")
        if t is not None and t is not e.B["int"] and t is not e.B["str"]:
            raise Unsupported("argument type")
        ch = arg.kw.get("choices")
        if ch is not None and not e.truth(e.contains(ch, v)):
            e.raise_("SystemExit", "invalid choice")
        return v

    def parse(self, e, a, k):
        if a or k or e.argv is None:
            raise Unsupported("parse_args arguments")
        ASSUMED.add("argparse resolves options and positionals as documented")
        opts, pos = e.argv
        ns = {}
        names = [x.dest for x in self.c]
        if len(set(names)) != len(names):
            raise Unsupported("two arguments of one name")
        for x in self.c:
            act = x.kw.get("action", "store")
            if act not in ("store", "store_true", "store_false"):
                raise Unsupported("argument action")
            ns[x.dest] = x.kw.get("default", {"store_true": False, "store_false": True}.get(act))
        for flag, v in opts:
            m = [x for x in self.c if flag in x.flags]
            if not m:
                if any(f.startswith(flag) for x in self.c for f in x.flags):
                    raise Unsupported("abbreviated option")
                e.raise_("SystemExit", "unrecognized arguments")
            x = m[0]
            act = x.kw.get("action", "store")
            if act != "store":
                # v: whether the flag is given
                if act == "store_true" and ns[x.dest] is False:
                    ns[x.dest] = v
                elif e.truth(v):
                    ns[x.dest] = act == "store_true"
                continue
            nargs = x.kw.get("nargs")
            if nargs == "+":
                if not isinstance(v, (list, tuple)) or not v:
                    raise Unsupported("several values")
                ns[x.dest] = Lst(e, tuple(E(self.value(e, x, y)) for y in v))
            elif nargs is None:
                ns[x.dest] = self.value(e, x, v)
            else:
                raise Unsupported("nargs")
        left = list(pos)
        ps = [x for x in self.c if not x.flags[0].startswith("-")]
        need = sum(1 for x in ps if x.kw.get("nargs") is None)
        for x in ps:
            na = x.kw.get("nargs")
            if na is None:
                if not left:
                    e.raise_("SystemExit", "the following arguments are required")
                ns[x.dest] = self.value(e, x, left.pop(0))
                need -= 1
            elif na == "?":
                if len(left) > need:
                    ns[x.dest] = self.value(e, x, left.pop(0))
            else:
                raise Unsupported("nargs")
        if left:
            e.raise_("SystemExit", "unrecognized arguments")
        return NS(e, ns)


class NS(Mut):
    __slots__ = ()

    @property
    def cls(self):
        return None

    def attr(self, eng, name):
        if name not in self.c:
            eng.raise_("AttributeError", name)
        return self.c[name]

    def has_attr(self, eng, name):
        return name in self.c


def install(eng):
    eng.argv = None
    eng.stdin = eng.stdout = None
    eng.ext["argparse"] = {"ArgumentParser": BI("ArgumentParser", lambda e, a, k: Parser(e, ()))}
