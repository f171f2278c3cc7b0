"""Assumed contracts of other libraries."""
import z3
from terms import *
from values import *
from builtins_ import ASSUMED


def install(eng):
    eng.toml_reg = []

    def dumps(e, a, k):
        ASSUMED.add("toml.loads(toml.dumps(m)) == m for the metadata m")
        d = a[0]
        if not isinstance(d, Dct) or len(a) != 1 or k:
            raise Unsupported("toml.dumps arguments")
        for t, c in e.toml_reg:
            if c is d.c:
                return t
        t = e.T.fresh("toml", Str)
        e.toml_reg.append((t, d.c))
        return t

    def loads(e, a, k):
        if len(a) != 1 or k or not e.is_str(a[0]):
            raise Unsupported("toml.loads arguments")
        s = e.str_t(a[0])
        for t, c in e.toml_reg:
            if t.eq(s) or e.entails(t == s):
                return Dct(e, c)
        raise Unsupported("toml.loads of other text")
    eng.ext["toml"] = {"dumps": BI("toml.dumps", dumps), "loads": BI("toml.loads", loads)}
