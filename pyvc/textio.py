"""Text files (UTF-8, newline-separated) on top of the byte tokens of files.py, and the regular
expressions used to split their lines."""
import re
import z3
from terms import *
from values import *
from interp import MakeGeneric
import builtins_
from builtins_ import ASSUMED
import files
from files import FileW, EndIter, JoinStr, JoinT, Utf8, TextT, PathV, encode, free_of, str_split

READ_KW = {"encoding", "errors", "mode", "newline", "buffering"}


class TextW(FileW):
    """text file open for writing; tokens as for a binary file"""
    __slots__ = ()

    def text(self, eng, s):
        if not (eng.is_str(s) or isinstance(s, (FStr, JoinStr))):
            eng.raise_("TypeError", "write() argument must be str")
        b = encode(eng, s)
        self.put(eng, files.to_byt(eng, b).toks)

    def attr(self, eng, name):
        if name == "write":
            return BI("file.write", lambda e, a, k: self.text(e, a[0]))
        if name == "writelines":
            def wl(e, a, k):
                e.iterate(e.items_of(a[0]), lambda v: self.text(e, v))
            return BI("file.writelines", wl)
        if name == "tell":
            raise Unsupported("tell on a text file")
        return FileW.attr(self, eng, name)

    def do_print(self, eng, a, k):
        if set(k) - {"file", "sep", "end", "flush"}:
            raise Unsupported("print arguments")
        sep = k.get("sep") if k.get("sep") is not None else " "
        end = k.get("end") if k.get("end") is not None else "\n"
        ps = []
        for n, x in enumerate(a):
            if n:
                ps.append(sep)
            if isinstance(x, StarArg):
                ps.append(JoinStr(sep, x.items))
            else:
                ps.append(eng.call(eng.B["str"], [x], {}) if not isinstance(x, (FStr, JoinStr)) else x)
        ps.append(end)
        self.text(eng, eng.mkstr(ps))


class TextR(Mut):
    """text file open for reading; c = remaining lines (item tree), or None after an iteration
    that may have been left early"""
    __slots__ = ("lines", "name")

    def __init__(self, eng, toks, name=None):
        self.lines = lines_of(eng, toks)
        self.name = name
        Mut.__init__(self, eng, self.lines)

    @property
    def cls(self):
        return None

    def close(self, eng):
        pass

    def iter_items(self, eng):
        r = self.rest(eng)
        self.c = ((None),)
        return r

    def rest(self, eng):
        if eng.loop_gen and self not in eng.loop_gen[-1]:
            raise MakeGeneric(self)
        if len(self.c) == 1 and self.c[0] is None:
            raise Unsupported("reading on after iterating over a file")
        return self.c

    def take(self, eng):
        """the next line or None at the end"""
        r = list(self.rest(eng))
        while r and isinstance(r[0], For):
            f = r[0]
            n = eng.int_t(f.n)
            if eng.entails(n <= 0):
                r.pop(0)
                continue
            if not eng.entails(n > 0) and not eng.branch(n > 0):
                r.pop(0)
                continue
            k2 = eng.T.fresh("k")
            r[0:1] = list(eng.subst_items(f.items, f.k, iv(0))) + [For(k2, z3.simplify(n - 1), eng.subst_items(f.items, f.k, k2 + 1))]
        if not r:
            self.c = ()
            return None
        if isinstance(r[0], EndIter):
            raise Unsupported("loop reads more than one line per iteration")
        if not isinstance(r[0], E):
            raise Unsupported("reading a line")
        self.c = tuple(r[1:])
        return r[0].v

    def next(self, eng, default):
        v = self.take(eng)
        if v is None:
            if default:
                return default[0]
            eng.raise_("StopIteration")
        return v

    def attr(self, eng, name):
        if name == "readline":
            def rl(e, a, k):
                if a:
                    raise Unsupported("readline with a size")
                v = self.take(e)
                return "" if v is None else v
            return BI("file.readline", rl)
        if name == "__next__":
            return BI("file.__next__", lambda e, a, k: self.next(e, ()))
        if name == "readlines":
            def rls(e, a, k):
                r = self.rest(e)
                self.c = ()
                return Lst(e, r)
            return BI("file.readlines", rls)
        if name == "seek":
            def seek(e, a, k):
                if e.loop_gen:
                    raise Unsupported("seek inside a loop")
                if len(a) != 1 or e.pyint(a[0]) != 0:
                    raise Unsupported("seek in a text file")
                self.c = self.lines
                return 0
            return BI("file.seek", seek)
        if name == "name":
            return self.name
        if name in ("close", "flush"):
            return BI("file." + name, lambda e, a, k: None)
        raise Unsupported("file.%s (text)" % name)

    # loops: iteration k reads line k
    def generic(self, eng, k, n):
        pre = self.c
        r = list(pre)
        if len(r) == 1 and r[0] is None or not r or not isinstance(r[0], For):
            raise Unsupported("loop reads lines")
        f = r[0]
        if not eng.entails(n <= eng.int_t(f.n)):
            raise Unsupported("loop reads more lines than there are")
        self.c = tuple(eng.subst_items(f.items, f.k, k)) + (EndIter(),)
        return ("textr", pre, f)

    def diff(self, c0, c1):
        return [] if c0 is c1 else [None]

    def effects(self, c):
        return ()

    def finish(self, eng, pre, g, k, upto, nexts, fin, fint):
        for p in nexts:
            c = p.state.get(self)
            if c is None or len(c) != 1 or not isinstance(c[0], EndIter):
                raise Unsupported("loop does not read exactly one line per iteration")
        fn = eng.int_t(g.n)
        tail = ()
        if not eng.entails(upto == fn):
            k2 = eng.T.fresh("k")
            tail = (For(k2, z3.simplify(fn - upto), eng.subst_items(g.items, g.k, k2 + upto)),)
        self.c = tail + pre[1:]


def lines_of(eng, toks):
    """line tree of a token tree: newlines occur only in literals"""
    out, cur = [], []

    def flush():
        out.append(E(eng.mkstr(cur) if len(cur) > 1 else cur[0]))
        del cur[:]
    for it in toks:
        if isinstance(it, E):
            v = it.v
            if isinstance(v, bytes):
                s = v.decode().replace("\r\n", "\n").replace("\r", "\n")
                while "\n" in s:
                    a, s = s.split("\n", 1)
                    cur.append(a + "\n")
                    flush()
                if s:
                    cur.append(s)
            elif isinstance(v, Utf8):
                if not free_of(eng, eng.str_t(v.s), "\n\r", "all"):
                    raise Unsupported("text with a string that may contain line breaks")
                cur.append(v.s)
            elif isinstance(v, TextT):
                cur.append(FStr([v.v]))
            elif isinstance(v, JoinT):
                if not v.j.numeric(eng) or "\n" in v.j.sep or "\r" in v.j.sep:
                    raise Unsupported("lines of joined text")
                cur.append(v.j)
            else:
                raise Unsupported("lines of %r" % (v,))
        elif isinstance(it, For):
            if cur:
                raise Unsupported("line spanning a loop")
            k = eng.T.fresh("k")
            with builtins_.prove_scope(eng, k >= 0, k < eng.int_t(it.n)):
                b = lines_of(eng, eng.subst_items(it.items, it.k, k))
            if not it.items[-1:] or not isinstance(it.items[-1], E) or not isinstance(it.items[-1].v, bytes) or not it.items[-1].v.endswith(b"\n"):
                raise Unsupported("line spanning a loop")
            out.append(For(k, it.n, b))
        elif isinstance(it, IfI):
            if cur:
                raise Unsupported("line spanning a condition")
            out.extend(lines_of(eng, it.a if eng.branch(it.cond) else it.b))
        else:
            raise Unsupported("lines of a file")
    if cur:
        flush()
    return tuple(out)


def open_text(eng):
    def f(p, mode, k):
        enc = k.get("encoding")
        if set(k) - READ_KW or k.get("newline") is not None or "buffering" in k:
            raise Unsupported("open arguments")
        if enc is None and p.locale and mode in ("r", "rt"):
            ASSUMED.add("query files are in the locale's encoding")
            return TextR(eng, p.current(eng) or (), p)
        if not isinstance(enc, str) or enc.lower().replace("-", "").replace("_", "") != "utf8":
            raise Unsupported("text file with encoding %r" % (enc,))
        if mode in ("r", "rt"):
            return TextR(eng, p.current(eng) or (), p)
        if mode in ("w", "wt"):
            p.out = TextW(eng, 0, p)
            return p.out
        raise Unsupported("open mode %s" % mode)
    return f


# ------------------------------------------------------ regular expressions
_CS = {}


def charset(pattern, flags):
    """the characters c such that the pattern is [c...]+, or None"""
    key = (pattern, flags)
    if key not in _CS:
        r = None
        try:
            p = re._parser.parse(pattern, flags)
            one = len(p) == 1 and p[0][0] is re._constants.MAX_REPEAT and p[0][1][0] == 1 and p[0][1][1] is re._constants.MAXREPEAT and len(p[0][1][2]) == 1 and p[0][1][2][0][0] in (re._constants.IN, re._constants.LITERAL)
            if one:
                c = re.compile(pattern, flags)
                r = "".join(chr(i) for i in range(0x110000) if c.fullmatch(chr(i)))
                if len(r) > 64:
                    r = None
        except Exception:
            r = None
        _CS[key] = r
    return _CS[key]


class Pat:
    """compiled regular expression"""

    def __init__(self, pattern, flags):
        self.p, self.flags = pattern, flags

    @property
    def cls(self):
        return None

    def attr(self, eng, name):
        if name == "split":
            return BI("Pattern.split", lambda e, a, k: re_split(e, self, a, k))
        if name == "pattern":
            return self.p
        raise Unsupported("Pattern.%s" % name)


def re_split(e, p, a, k):
    if len(a) != 1 or k:
        raise Unsupported("Pattern.split with maxsplit")
    s = a[0]
    if isinstance(s, str):
        return Lst(e, tuple(E(x) for x in re.split(p.p, s, flags=p.flags)))
    cs = charset(p.p, p.flags)
    if cs is None:
        raise Unsupported("Pattern.split")
    return str_split(e, s, [], chars=cs, regex=True)


def install(eng):
    eng.open_text = open_text(eng)

    def comp(e, a, k):
        if isinstance(a[0], Pat):
            return a[0]
        fl = a[1] if len(a) > 1 else k.get("flags", 0)
        if not isinstance(a[0], str) or not isinstance(fl, int):
            raise Unsupported("re.compile")
        return Pat(a[0], fl)
    eng.ext["re"] = {"compile": BI("re.compile", comp), "split": BI("re.split", lambda e, a, k: re_split(e, comp(e, [a[0]], {f: v for f, v in k.items() if f == "flags"}), a[1:], {f: v for f, v in k.items() if f != "flags"})),
                     "ASCII": int(re.ASCII), "A": int(re.ASCII), "UNICODE": int(re.UNICODE)}
