"""Statements and expressions (methods of Engine)."""
import ast
import z3
from terms import *
from values import *
from interp import Engine, CT, Ex

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitXor: "^", ast.BitAnd: "&", ast.BitOr: "|", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}


def meth(f):
    setattr(Engine, f.__name__, f)
    return f


def meth_as(name):
    def d(f):
        setattr(Engine, name, f)
        return f
    return d


# ------------------------------------------------------------- statements
@meth
def stmts(self, body, f):
    for s in rotated(body):
        self.stmt(s, f)


_rot = {}


def rotated(body):
    """`X; while c: B; X`  is read as  `while True: X; if c: B else: break`  (B without continue)"""
    if not any(isinstance(s, ast.While) for s in body):
        return body
    r = _rot.get(id(body))
    if r is None or r[0] is not body:
        out = []
        for s in body:
            if isinstance(s, ast.While) and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                m = 0
                while m < len(out) and m < len(s.body) and ast.dump(out[-1 - m]) == ast.dump(s.body[-1 - m]):
                    m += 1
                if m:
                    pre = out[len(out) - m:]
                    del out[len(out) - m:]
                    t = ast.If(test=s.test, body=s.body[:-m] or [ast.Pass()], orelse=[ast.Break()])
                    s = ast.copy_location(ast.While(test=ast.Constant(True), body=pre + [ast.copy_location(t, s)], orelse=[]), s)
                    ast.fix_missing_locations(s)
            out.append(s)
        r = _rot[id(body)] = (body, out)
    return r[1]


@meth
def stmt(self, s, f):
    m = getattr(self, "st_" + type(s).__name__, None)
    if m is None:
        raise Unsupported("statement %s" % type(s).__name__)
    self.cur = (f, s)
    return m(s, f)


@meth
def st_Expr(self, s, f):
    if isinstance(s.value, ast.Constant):
        return
    self.ev(s.value, f)


@meth
def st_Pass(self, s, f):
    pass


@meth
def st_Assign(self, s, f):
    v = self.ev(s.value, f)
    for t in s.targets:
        self.assign(t, v, f)


@meth
def st_AnnAssign(self, s, f):
    ann = s.annotation
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str) and ann.value.startswith("c:"):
        ct = ann.value[2:]
        if isinstance(s.target, ast.Name):
            f.ctypes = dict(f.ctypes)
            f.ctypes[s.target.id] = ct
        if s.value is None:
            return
    elif s.value is None:
        if f.fn is None and isinstance(s.target, ast.Name):
            f.c.setdefault("__annotations__", {})[s.target.id] = ann
        return
    self.assign(s.target, self.ev(s.value, f), f)


@meth
def st_AugAssign(self, s, f):
    op = OPS[type(s.op)]
    t = s.target
    if isinstance(t, ast.Name):
        old = self.lookup(t.id, f)
        new = self.augop(op, old, self.ev(s.value, f))
        if new is not old or not isinstance(old, Mut):
            self.assign(t, new, f)
    elif isinstance(t, ast.Attribute):
        o = self.ev(t.value, f)
        old = self.getattr(o, t.attr)
        new = self.augop(op, old, self.ev(s.value, f))
        self.setattr(o, t.attr, new)
    elif isinstance(t, ast.Subscript):
        o = self.ev(t.value, f)
        i = self.ev_index(t.slice, f)
        old = self.getitem(o, i)
        new = self.augop(op, old, self.ev(s.value, f))
        self.setitem(o, i, new)
    else:
        raise Unsupported("augmented assignment")


@meth
def augop(self, op, old, v):
    if isinstance(old, BArr) and op == "+":
        import files
        old.c = old.c + files.to_byt(self, v).toks
        return old
    if isinstance(old, Lst) and op == "+":
        old.c = old.c + tuple(self.items_of(v))
        return old
    h = getattr(old, "iop", None)
    if h is not None:
        return h(self, op, v)
    return self.binop(op, old, v)


@meth
def st_Return(self, s, f):
    raise ReturnX(self.ev(s.value, f) if s.value is not None else None)


@meth
def st_If(self, s, f):
    if self.truth(self.ev(s.test, f)):
        self.stmts(s.body, f)
    else:
        self.stmts(s.orelse, f)


@meth
def st_For(self, s, f):
    it = self.ev(s.iter, f)
    items = self.iter_with_types(it, s.target, f)

    def body(v):
        self.assign(s.target, v, f)
        try:
            self.stmts(s.body, f)
        except ContinueX:
            pass
    try:
        self.iterate(items, body)
    except BreakX:
        return
    self.stmts(s.orelse, f)


@meth
def iter_with_types(self, it, target, f):
    h = getattr(it, "iter_items", None)
    return h(self) if h else self.items_of(it)


@meth
def st_While(self, s, f):
    self.while_loop(s, f)


@meth
def while_loop(self, s, f):
    # counting loops: `while i < n` with i advanced by a constant in every iteration
    r = self.counter_while(s, f)
    if r:
        return
    for rule in self.while_rules:
        if rule(self, s, f):
            return
    # bounded concrete execution
    for _ in range(200):
        fm, n = self.peel_count()
        if n is not None:
            # unrolling n iterations (as a summarised loop) is valid for any n; n: items left in the file
            def body(k):
                t = self.ev(s.test, f)
                if not (t is True or self.branch(self.truth_t(t))):
                    raise BreakX("test")
                try:
                    self.stmts(s.body, f)
                except ContinueX:
                    pass
                if fm.c[0] == "eof":
                    raise BreakX("eof")      # moved beyond the end of the file: go on unrolling from there
            try:
                self.summarise(n, body)
            except BreakX as b:
                if b.args and b.args[0] == "eof":
                    continue
                if b.args and b.args[0] == "test":
                    self.stmts(s.orelse, f)
                return
        t = self.ev(s.test, f)
        tt = self.truth_t(t)
        if not isinstance(tt, bool):
            tt = self.norm(tt)
        if not isinstance(tt, bool):
            if self.entails(tt):
                tt = True
            elif self.entails(z3.Not(tt)):
                tt = False
            else:
                raise Unsupported("while loop")
        if not tt:
            self.stmts(s.orelse, f)
            return
        try:
            self.stmts(s.body, f)
        except ContinueX:
            continue
        except BreakX:
            return
    raise Unsupported("while loop bound")


@meth
def peel_count(self):
    """number of items of the symbolic sequence an open file is positioned at"""
    import files
    ns = []
    for m in self.heap:
        if isinstance(m, files.FileR) and m.c[0] != "eof":
            if self.loop_gen and m not in self.loop_gen[-1]:
                continue      # a read in the body makes it generic first
            r = m.c[1]
            if r and isinstance(r[0], IfI):
                r = tuple(r[0].a if self.branch(r[0].cond) else r[0].b) + tuple(r[1:])
                m.c = (m.c[0], r, m.c[2])
            if r and isinstance(r[0], E) and isinstance(r[0].v, files.Utf8):
                r = (files.byte_loop(self, r[0].v.s),) + tuple(r[1:])
                m.c = (m.c[0], r, m.c[2])
            if r and isinstance(r[0], For) and all(not isinstance(x, files.EndIter) for x in r[:1]):
                if self.loop_gen and m in self.loop_gen[-1] and not (len(r[0].items) == 1 and isinstance(r[0].items[0], E) and isinstance(r[0].items[0].v, files.UByte)):
                    continue
                ns.append((m, self.int_t(r[0].n)))
    return ns[0] if len(ns) == 1 else (None, None)


@meth
def counter_while(self, s, f):
    """while <i OP bound>: body where the body ends with/contains exactly one top-level
    `i += c` and no other assignment to i, and no `continue` before it."""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
        return False
    op = CMP.get(type(t.ops[0]))
    if op not in ("<", "<=", ">", ">=", "!="):
        return False
    name = t.left.id
    step = None
    for st in s.body:
        c = None
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name and isinstance(st.value, ast.Constant) and isinstance(st.op, (ast.Add, ast.Sub)):
            c = st.value.value if isinstance(st.op, ast.Add) else -st.value.value
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name and isinstance(st.value, ast.BinOp) and isinstance(st.value.left, ast.Name) and st.value.left.id == name and isinstance(st.value.right, ast.Constant) and isinstance(st.value.op, (ast.Add, ast.Sub)):
            c = st.value.right.value if isinstance(st.value.op, ast.Add) else -st.value.right.value
        if c is not None:
            if step is not None:
                return False
            step = c
    if step not in (1, -1):
        return False
    n_as = 0
    for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
            n_as += 1
        if isinstance(x, ast.Continue):
            return False
    if n_as != 1:
        return False
    # the bound must not change in the loop
    assigned = {x.id for x in ast.walk(ast.Module(body=s.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if any(isinstance(x, ast.Name) and x.id in assigned for x in ast.walk(t.comparators[0])):
        return False
    if any(isinstance(x, ast.Call) for x in ast.walk(t.comparators[0])):
        muts = [x for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)]
        for b in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and isinstance(b.func.value, ast.Name) and any(b.func.value.id == m.id for m in muts):
                return False
    v0 = self.lookup(name, f)
    if not self.is_int(v0):
        return False
    lo = self.int_t(v0)
    hi = self.ev(t.comparators[0], f)
    if not self.is_int(hi):
        return False
    hi = self.int_t(hi)
    if step == 1 and op in ("<", "<="):
        n = hi - lo + (1 if op == "<=" else 0)
    elif step == -1 and op in (">", ">="):
        n = lo - hi + (1 if op == ">=" else 0)
    elif step == 1 and op == "!=" and self.entails(lo <= hi):
        n = hi - lo
    else:
        return False
    ct = f.ctypes.get(name)

    def body(k):
        v = z3.simplify(lo + step * k)
        nc = dict(f.c)
        nc[name] = CV(ct, self.pyint(v)) if ct in CT else self.norm(v)
        f.c = nc
        self.stmts(s.body, f)
    try:
        self.summarise(z3.simplify(n), body)
    except BreakX:
        return True
    nn = z3.If(n > 0, n, iv(0)) if not self.entails(n >= 0) else n
    v = self.norm(lo + step * nn)
    nc = dict(f.c)
    nc[name] = CV(ct, v) if ct in CT else v
    f.c = nc
    self.stmts(s.orelse, f)
    return True


@meth
def st_Break(self, s, f):
    raise BreakX()


@meth
def st_Continue(self, s, f):
    raise ContinueX()


@meth
def st_Raise(self, s, f):
    if s.exc is None:
        if getattr(self, "handling", None):
            raise PyRaise(self.handling[-1])
        raise Unsupported("bare raise")
    v = self.ev_exc(s.exc, f)
    raise PyRaise(v)


@meth
def ev_exc(self, e, f):
    v = self.ev(e, f)
    if isinstance(v, Cls):
        return ExcV(v, ())
    if isinstance(v, ExcV):
        return v
    if isinstance(v, Obj):
        return ExcV(v.cls, ())
    raise Unsupported("raise of %s" % type(v).__name__)


@meth
def st_Assert(self, s, f):
    if not self.truth(self.ev(s.test, f)):
        raise PyRaise(ExcV(self.B["AssertionError"], ()))


@meth
def st_Try(self, s, f):
    def fin():
        self.stmts(s.finalbody, f)
    try:
        try:
            self.stmts(s.body, f)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_match(e.exc, self.ev(h.type, f)):
                    if h.name:
                        self.store(h.name, e.exc, f)
                    self.handling = getattr(self, "handling", [])
                    self.handling.append(e.exc)
                    try:
                        self.stmts(h.body, f)
                    finally:
                        self.handling.pop()
                    break
            else:
                raise
        else:
            self.stmts(s.orelse, f)
    except (PyRaise, ReturnX, BreakX, ContinueX):
        fin()
        raise
    fin()


@meth
def exc_match(self, exc, t):
    if isinstance(t, tuple):
        return any(self.exc_match(exc, x) for x in t)
    return isinstance(t, Cls) and t in exc.cls.mro


@meth
def st_With(self, s, f):
    opened = []
    for it in s.items:
        v = self.ev(it.context_expr, f)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, f)
        opened.append(v)
    try:
        self.stmts(s.body, f)
    finally:
        for v in reversed(opened):
            h = getattr(v, "close", None)
            if h is not None:
                h(self)


@meth
def st_Delete(self, s, f):
    for t in s.targets:
        if isinstance(t, ast.Name):
            nc = dict(f.c)
            nc.pop(t.id, None)
            f.c = nc
        else:
            raise Unsupported("del")


@meth
def st_Global(self, s, f):
    raise Unsupported("global statement")


@meth
def st_Nonlocal(self, s, f):
    raise Unsupported("nonlocal statement")


@meth
def st_Import(self, s, f):
    for a in s.names:
        if a.asname:
            self.store(a.asname, self.module(a.name), f)
        else:
            root = a.name.split(".")[0]
            self.store(root, self.module(root), f)


@meth
def st_ImportFrom(self, s, f):
    mod = s.module or ""
    if s.level:
        base = f.glob.name.split(".")
        tree_is_pkg = self.is_pkg(f.glob.name)
        up = s.level - (1 if tree_is_pkg else 0)
        base = base[:len(base) - up] if up else base
        mod = ".".join(base + ([mod] if mod else []))
    if mod.split(".")[0] == "finalfusion":
        m = self.module(mod)
        for a in s.names:
            if a.name in m.d:
                v = m.d[a.name]
            else:
                try:
                    v = self.module(mod + "." + a.name)
                except FileNotFoundError:
                    raise Unsupported("import %s from %s" % (a.name, mod))
            self.store(a.asname or a.name, v, f)
        return
    m = self.module(mod)
    for a in s.names:
        v = m.d.get(a.name)
        if v is None:
            v = self.B.get(mod + "." + a.name) or self.B["__opaque__"](mod + "." + a.name)
        self.store(a.asname or a.name, v, f)


@meth
def is_pkg(self, name):
    import os
    import frontend
    return os.path.isdir(os.path.join(frontend.SRC, *name.split(".")))


@meth
def st_FunctionDef(self, s, f):
    fn = self.mkfn(s, f)
    v = self.decorate(fn, s.decorator_list, f)
    self.store(s.name, v, f)


@meth
def mkfn(self, s, f):
    fn = Fn(s, f.glob, s.name, f.glob.name, None, f if f.fn is not None else None)
    fn.defaults = tuple(self.ev(d, f) for d in s.args.defaults)
    fn.kwdefaults = tuple(self.ev(d, f) if d is not None else MISSING for d in s.args.kw_defaults)
    return fn


@meth
def decorate(self, fn, decos, f):
    v = fn
    for d in reversed(decos):
        nm = ast.unparse(d)
        if nm == "property":
            v = Prop(v)
        elif nm.endswith(".setter"):
            old = f.c.get(nm[:-7])
            v = Prop(old.get if isinstance(old, Prop) else None, v)
        elif nm == "staticmethod":
            v = StaticM(v)
        elif nm == "classmethod":
            v = ClassM(v)
        elif nm.split(".")[-1] == "abstractmethod":
            pass
        elif nm.startswith("cython."):
            pass
        elif nm.split("(")[0] in ("functools.wraps",):
            pass
        else:
            raise Unsupported("decorator %s" % nm)
    return v


@meth
def st_ClassDef(self, s, f):
    bases = []
    for b in s.bases:
        v = self.ev(b, f)
        if not isinstance(v, Cls):
            v = self.B["object"]
        bases.append(v)
    if not bases:
        bases = [self.B["object"]]
    cf = Frame(self, {})
    cf.fn, cf.ctypes, cf.glob, cf.outer, cf.node = None, {}, f.glob, f, None
    cf.c["__classframe__"] = True
    for st in s.body:
        self.stmt(st, cf)
    d = cf.c
    cls = Cls(s.name, bases, d, f.glob.name)
    cls.cattrs.update(cf.ctypes)
    for v in d.values():
        for g in self.fns_in(v):
            if g.cls is None:
                g.cls = cls
    if any(x in cls.mro for x in (self.B["Enum"], self.B["IntEnum"])):
        cls.members = {}
        for a, v in list(d.items()):
            if not a.startswith("_") and (isinstance(v, (int, str)) and not isinstance(v, bool)):
                ev = EnumVal(cls, a, v)
                cls.members[a] = ev
                d[a] = ev
    for dd in s.decorator_list:
        nm = ast.unparse(dd)
        if nm.startswith("dataclass") or nm.startswith("dataclasses.dataclass"):
            cls.d["__dataclass__"] = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            cls.d["__dcorder__"] = isinstance(dd, ast.Call) and any(w.arg == "order" and getattr(w.value, "value", None) is True for w in dd.keywords)
            cls.d["__dcfields__"] = {a: d.get(a, MISSING) for a in cls.d["__dataclass__"]}
    self.store(s.name, cls, f)


@meth
def fns_in(self, v):
    if isinstance(v, Fn):
        return [v]
    if isinstance(v, Prop):
        return [x for x in (v.get, v.set) if isinstance(x, Fn)]
    if isinstance(v, (StaticM, ClassM)):
        return [v.fn] if isinstance(v.fn, Fn) else []
    return []


# ------------------------------------------------------------ variables
@meth
def store(self, name, v, f):
    ct = f.ctypes.get(name)
    if ct is not None and ct in CT:
        v = self.c_coerce(ct, v)
    elif ct is None and isinstance(v, CV) and f.fn is not None and not getattr(f.fn.node, "is_cy", False):
        v = self.pyint(v)
    nc = dict(f.c)
    nc[name] = v
    f.c = nc


@meth
def lookup(self, name, f):
    g = f
    while g is not None:
        if name in g.c and not (g.c.get("__classframe__") and g is not f):
            v = g.c[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        g = g.outer
    if name in f.glob.d:
        return f.glob.d[name]
    if name in self.B:
        return self.B[name]
    self.raise_("NameError", name)


@meth
def assign(self, t, v, f):
    if isinstance(t, ast.Name):
        self.store(t.id, v, f)
    elif isinstance(t, (ast.Tuple, ast.List)):
        vs = self.unpack(v, len(t.elts), t.elts)
        for x, y in zip(t.elts, vs):
            self.assign(x.value if isinstance(x, ast.Starred) else x, y, f)
    elif isinstance(t, ast.Attribute):
        self.setattr(self.ev(t.value, f), t.attr, v)
    elif isinstance(t, ast.Subscript):
        self.setitem(self.ev(t.value, f), self.ev_index(t.slice, f), v)
    else:
        raise Unsupported("assignment target")


@meth
def unpack_star(self, v, elts):
    i = [isinstance(x, ast.Starred) for x in elts].index(True)
    m = len(elts) - 1 - i
    if isinstance(v, tuple):
        v = Lst(self, tuple(E(x) for x in v))
    if not isinstance(v, (Lst, Seq)):
        raise Unsupported("starred unpacking")
    n = self.int_t(self.length(v))
    if not self.branch(n >= i + m):
        self.raise_("ValueError", "unpack")
    f = Frame(self, {"v": v, "i": i, "e": self.norm(n - m)})
    md = Mod("unpack", {})
    f.fn, f.ctypes, f.glob, f.outer, f.node = Fn(ast.parse("def unpack(): pass").body[0], md, "unpack", "unpack"), {}, md, None, None
    mid = self.ev(ast.parse("list(v[i:e])", mode="eval").body, f)
    return tuple(self.getitem(v, j) for j in range(i)) + (mid,) + tuple(self.getitem(v, self.norm(n - m + j)) for j in range(m))


@meth
def unpack(self, v, n, elts=None):
    if elts is not None and any(isinstance(x, ast.Starred) for x in elts):
        return self.unpack_star(v, elts)
    h = getattr(v, "unpack", None)
    if h is not None:
        return h(self, n)
    if isinstance(v, tuple):
        if len(v) != n:
            self.raise_("ValueError", "unpack")
        return v
    items = self.items_of(v)
    if all(isinstance(i, E) for i in items):
        if len(items) != n:
            self.raise_("ValueError", "unpack")
        return tuple(i.v for i in items)
    if len(items) == 1 and isinstance(items[0], For) and len(items[0].items) == 1 and isinstance(items[0].items[0], E):
        nn = items[0].n
        if self.branch(nn == n) if not isinstance(nn, int) else nn == n:
            return tuple(self.subst_val(items[0].items[0].v, [(items[0].k, iv(i))]) for i in range(n))
        self.raise_("ValueError", "unpack")
    raise Unsupported("unpacking")


# ------------------------------------------------------------ expressions
@meth
def ev(self, e, f):
    m = getattr(self, "ex_" + type(e).__name__, None)
    if m is None:
        raise Unsupported("expression %s" % type(e).__name__)
    return m(e, f)


@meth
def ex_Constant(self, e, f):
    return e.value


@meth
def ex_Name(self, e, f):
    return self.lookup(e.id, f)


@meth
def ex_Attribute(self, e, f):
    return self.getattr(self.ev(e.value, f), e.attr)


@meth
def ex_Tuple(self, e, f):
    out = []
    sym = False
    for x in e.elts:
        if isinstance(x, ast.Starred):
            its = self.items_of(self.ev(x.value, f))
            if all(isinstance(i, E) for i in its):
                out.extend(its)
            else:
                sym = True
                out.extend(its)
        else:
            out.append(E(self.ev(x, f)))
    return Seq(out) if sym else tuple(i.v for i in out)


@meth
def ex_List(self, e, f):
    out = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            out.extend(self.items_of(self.ev(x.value, f)))
        else:
            out.append(E(self.ev(x, f)))
    return Lst(self, tuple(out))


@meth
def ex_Set(self, e, f):
    return St(self, DC(None, tuple(E((self.ev(x, f), None)) for x in e.elts)))


@meth
def ex_Dict(self, e, f):
    its = []
    for k, v in zip(e.keys, e.values):
        if k is None:
            raise Unsupported("dict unpacking")
        its.append(E((self.ev(k, f), self.ev(v, f))))
    return Dct(self, DC(None, tuple(its)))


@meth
def ex_IfExp(self, e, f):
    c = self.truth_t(self.ev(e.test, f))
    if isinstance(c, bool):
        return self.ev(e.body if c else e.orelse, f)
    c = z3.simplify(c)
    # pure scalar alternatives are merged into an if-then-else term
    if self.pure(e.body) and self.pure(e.orelse):
        n0 = len(self.pc)
        try:
            a, b = self.ev(e.body, f), self.ev(e.orelse, f)
            if len(self.pc) == n0:
                m = self.merge(c, a, b)
                if m is not None:
                    return m
        except PyRaise:
            pass
        del self.pc[n0:]
    return self.ev(e.body if self.branch(c) else e.orelse, f)


@meth
def pure(self, e):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.UnaryOp, ast.unaryop)) for x in ast.walk(e))


@meth
def merge(self, c, a, b):
    """if-then-else of two scalar values, or None"""
    if self.same(a, b):
        return a
    if isinstance(a, CV) or isinstance(b, CV):
        if isinstance(a, CV) and isinstance(b, CV) and a.ct == b.ct:
            w = CT[a.ct][0]
            if (is_t(a.t) and z3.is_bv(a.t)) or (is_t(b.t) and z3.is_bv(b.t)):
                return CV(a.ct, z3.If(c, self.to_bv(a, w), self.to_bv(b, w)))
            return CV(a.ct, z3.If(c, self.int_t(a), self.int_t(b)))
        return None
    if isinstance(a, str) and isinstance(b, str):
        return z3.If(c, self.T.lit(a), self.T.lit(b)) if False else None
    for so in (I, R, B):
        ok = True
        for x in (a, b):
            if so == I and not (is_t(x) and x.sort() == I or (isinstance(x, int) and not isinstance(x, bool))):
                ok = False
            if so == R and not (is_t(x) and x.sort() in (R, I) or (isinstance(x, (int, float)) and not isinstance(x, bool))):
                ok = False
            if so == B and not (is_t(x) and x.sort() == B or isinstance(x, bool)):
                ok = False
        if ok:
            x, y = self.as_sort(a, so), self.as_sort(b, so)
            if x is None or y is None:
                return None
            return z3.simplify(z3.If(c, x, y))
    return None


@meth
def ex_BoolOp(self, e, f):
    isand = isinstance(e.op, ast.And)
    v = None
    for i, x in enumerate(e.values):
        v = self.ev(x, f)
        if i == len(e.values) - 1:
            return v
        t = self.truth_t(v)
        if not isinstance(t, bool):
            # combine pure conditions without forking
            if is_t(v) and v.sort() == B and all(self.pure_cond(y) for y in e.values[i + 1:]):
                rest = [self.ev(y, f) for y in e.values[i + 1:]]
                ts = [self.truth_t(r) for r in rest]
                if all(isinstance(r, bool) or (is_t(r) and r.sort() == B) for r in rest):
                    ts = [z3.BoolVal(t) if isinstance(t, bool) else t for t in ts]
                    return self.norm(z3.And(v, *ts) if isand else z3.Or(v, *ts))
        d = self.branch(t)
        if d != isand:
            return v if not is_t(v) else d
    return v


@meth
def pure_cond(self, e):
    for x in ast.walk(e):
        if isinstance(x, (ast.Call, ast.Subscript, ast.Attribute)):
            return False
    return isinstance(e, (ast.Compare, ast.Name, ast.Constant, ast.BoolOp, ast.UnaryOp))


@meth
def ex_UnaryOp(self, e, f):
    v = self.ev(e.operand, f)
    if isinstance(e.op, ast.Not):
        t = self.truth_t(v)
        return (not t) if isinstance(t, bool) else self.norm(z3.Not(t))
    if isinstance(e.op, ast.USub):
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, CV):
            return self.c_binop("-", CV(v.ct if CT[v.ct][0] >= 32 else "int", 0), v)
        if is_t(v) and v.sort() in (I, R):
            return self.norm(-v)
        h = getattr(v, "binop", None)
        if h is not None:
            return h(self, "-", 0, True)
    if isinstance(e.op, ast.UAdd):
        return v
    if isinstance(e.op, ast.Invert):
        if isinstance(v, int):
            return ~v
        if isinstance(v, CV):
            w = CT[v.ct][0]
            return CV(v.ct, ~self.to_bv(v, w))
    raise Unsupported("unary operator")


@meth
def ex_BinOp(self, e, f):
    return self.binop(OPS[type(e.op)], self.ev(e.left, f), self.ev(e.right, f))


@meth
def ex_Compare(self, e, f):
    l = self.ev(e.left, f)
    res = True
    for op, r in zip(e.ops, e.comparators):
        rv = self.ev(r, f)
        c = self.compare(CMP[type(op)], l, rv)
        if isinstance(c, bool):
            if not c:
                return False
        else:
            res = c if res is True else z3.And(res, c)
        l = rv
    return res if isinstance(res, bool) else self.norm(res)


@meth
def ex_JoinedStr(self, e, f):
    from builtins_ import Opaque
    ps = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            ps.append(v.value)
        else:
            try:
                x = self.ev(v.value, f)
            except Unsupported:
                x = Opaque("text")
            spec = ""
            if v.format_spec is not None:
                spec = "".join(c.value for c in v.format_spec.values) if all(isinstance(c, ast.Constant) for c in v.format_spec.values) else None
            if spec is not None and v.conversion in (-1, None, 115):
                ps.append(self.numfmt(spec, x))
            else:
                ps.append(Opaque("formatted text"))
    return self.mkstr(ps)


@meth
def mkstr(self, ps):
    from builtins_ import Opaque
    out = []
    sym = False
    for p in ps:
        if isinstance(p, (EnumVal, SymEnum)):
            p = Opaque("text")
        if isinstance(p, FStr):
            out.extend(p.pieces)
            sym = True
            continue
        if isinstance(p, bool) or p is None:
            out.append(str(p) if p is not None else "None")
            continue
        if isinstance(p, CV):
            p = self.pyint(p)
        if isinstance(p, int):
            out.append(str(p))
        elif isinstance(p, str):
            out.append(p)
        elif is_t(p) and p.sort() == Str:
            out.append(p)
        else:
            sym = True
            out.append(p)
    if sym:
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        return FStr(m)
    return self.cat(out)


@meth
def cat(self, ps):
    """canonical concatenation of str / Str terms"""
    flat = []

    def add(p):
        if isinstance(p, str):
            if p == "":
                return
            if flat and isinstance(flat[-1], str):
                flat[-1] += p
            else:
                flat.append(p)
        else:
            s = self.lit_of(p)
            if s is not None:
                add(s)
            elif z3.is_app(p) and p.decl().name() == "scat":
                add(p.arg(0))
                add(p.arg(1))
            else:
                flat.append(p)
    for p in ps:
        add(p)
    if not flat:
        return ""
    if len(flat) == 1:
        return flat[0]
    ts = [self.T.lit(p) if isinstance(p, str) else p for p in flat]
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = scat(t, r)
    return r


@meth
def lit_of(self, t):
    if z3.is_const(t) and t.decl().name().startswith("lit:"):
        for s, x in self.T.lits.items():
            if x.eq(t):
                return s
    return None


@meth
def str_t(self, v):
    if isinstance(v, str):
        return self.T.lit(v)
    if is_t(v) and v.sort() == Str:
        return v
    if isinstance(v, CharV):
        return v.as_str()
    raise Unsupported("string expected, got %s" % type(v).__name__)


class CharV:
    pass


@meth
def ex_Lambda(self, e, f):
    node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
    ast.fix_missing_locations(node)
    return self.mkfn(node, f)


@meth
def ex_ListComp(self, e, f):
    return Lst(self, self.comp(e, f, lambda cf: self.ev(e.elt, cf)))


@meth
def ex_GeneratorExp(self, e, f):
    # evaluated eagerly; the generator expressions in scope have pure element expressions
    return Seq(self.comp(e, f, lambda cf: self.ev(e.elt, cf)), "gen")


@meth
def ex_SetComp(self, e, f):
    its = self.comp(e, f, lambda cf: (self.ev(e.elt, cf), None))
    return St(self, DC(None, its))


@meth
def ex_DictComp(self, e, f):
    its = self.comp(e, f, lambda cf: (self.ev(e.key, cf), self.ev(e.value, cf)))
    return Dct(self, DC(None, its))


@meth
def comp(self, e, f, elt):
    acc = Lst(self, ())
    cf = Frame(self, {})
    cf.fn, cf.ctypes, cf.glob, cf.outer, cf.node = f.fn, {}, f.glob, f, None

    def gen(i):
        if i == len(e.generators):
            acc.c = acc.c + (E(elt(cf)),)
            return
        g = e.generators[i]
        it = self.ev(g.iter, cf if i else f)
        items = self.iter_with_types(it, g.target, cf)

        def body(v):
            self.assign(g.target, v, cf)
            for c in g.ifs:
                if not self.truth(self.ev(c, cf)):
                    return
            gen(i + 1)
        self.iterate(items, body)
    gen(0)
    return acc.c


@meth
def ex_Starred(self, e, f):
    raise Unsupported("starred expression")


@meth
def ex_NamedExpr(self, e, f):
    v = self.ev(e.value, f)
    self.assign(e.target, v, f)
    return v


@meth
def ev_index(self, s, f):
    if isinstance(s, ast.Slice):
        return Sl(*[self.ev(x, f) if x is not None else None for x in (s.lower, s.upper, s.step)])
    if isinstance(s, ast.Tuple):
        return tuple(self.ev_index(x, f) for x in s.elts)
    return self.ev(s, f)


@meth
def ex_Subscript(self, e, f):
    o = self.ev(e.value, f)
    return self.getitem(o, self.ev_index(e.slice, f))


@meth
def ex_Slice(self, e, f):
    return self.ev_index(e, f)


@meth
def ex_Call(self, e, f):
    if isinstance(e.func, ast.Name):
        nm = e.func.id
        if nm == "super":
            if e.args:
                c, o = [self.ev(a, f) for a in e.args]
                return SuperV(c, o)
            g = f
            while g is not None and (g.fn is None or g.fn.cls is None):
                g = g.outer
            if g is None:
                raise Unsupported("super outside method")
            first = g.fn.node.args.args[0].arg
            return SuperV(g.fn.cls, g.c[first])
        if nm == "__cast__" :
            ct = e.args[0].value
            v = self.ev(e.args[1], f)
            return self.cast(ct, v)
        if nm == "__addr__":
            return self.addr(e.args[0], f)
    fn = self.ev(e.func, f)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            its = self.items_of(self.ev(a.value, f))
            if all(isinstance(i, E) for i in its):
                args.extend(i.v for i in its)
            else:
                args.append(StarArg(its))
        else:
            args.append(self.ev(a, f))
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            raise Unsupported("** call")
        kw[k.arg] = self.ev(k.value, f)
    return self.call(fn, args, kw)


@meth
def cast(self, ct, v):
    if ct.endswith("*") or ct not in CT:
        h = getattr(v, "cast", None)
        return h(self, ct) if h else v
    if not isinstance(v, CV) and not isinstance(v, int):
        v = CV("int64_t", self.int_t(v))
    return self.c_coerce(ct, v, True)


@meth
def addr(self, e, f):
    v = self.ev(e, f)
    return AddrV(v)


class AddrV:
    """address of a C variable (used as the byte buffer of its value)"""

    def __init__(self, v):
        self.v = v

    def cast(self, eng, ct):
        return self


# ------------------------------------------------------------------ calls
@meth
def call(self, fn, args, kw):
    if isinstance(fn, Bound):
        return self.call(fn.fn, [fn.self] + list(args), kw)
    if isinstance(fn, BI):
        self.models.add(fn.name)
        return fn.f(self, list(args), dict(kw))
    if isinstance(fn, Fn):
        return self.call_fn(fn, args, kw)
    if isinstance(fn, StaticM):
        return self.call(fn.fn, args, kw)
    if isinstance(fn, Cls):
        return self.construct(fn, args, kw)
    if isinstance(fn, Obj):
        m = self.getattr_special(fn, "__call__")
        if m is not None:
            return self.call(m, args, kw)
    h = getattr(fn, "call", None)
    if h is not None:
        return h(self, args, kw)
    raise Unsupported("call of %s" % (type(fn).__name__,))


@meth
def bind(self, fn, args, kw):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vals = {}
    args = list(args)
    if any(isinstance(x, StarArg) for x in args) and not a.vararg:
        raise Unsupported("symbolic * call")
    pos = args[:len(names)]
    for n, v in zip(names, pos):
        vals[n] = v
    rest = args[len(names):]
    if rest:
        if a.vararg is None:
            self.raise_("TypeError", "too many arguments for %s" % fn.name)
    if a.vararg is not None:
        if any(isinstance(x, StarArg) for x in rest):
            its = []
            for x in rest:
                its.extend(x.items if isinstance(x, StarArg) else [E(x)])
            vals[a.vararg.arg] = Seq(its)
        else:
            vals[a.vararg.arg] = tuple(rest)
    extra = {}
    kwn = [x.arg for x in a.kwonlyargs]
    for k, v in kw.items():
        if k in names or k in kwn:
            if k in vals:
                self.raise_("TypeError", "multiple values")
            vals[k] = v
        elif a.kwarg is not None:
            extra[k] = v
        else:
            self.raise_("TypeError", "unexpected keyword %s" % k)
    if a.kwarg is not None:
        vals[a.kwarg.arg] = Dct(self, DC(None, tuple(E((k, v)) for k, v in extra.items())))
    nd = len(fn.defaults)
    for n, d in zip(names[len(names) - nd:], fn.defaults):
        vals.setdefault(n, d)
    for n, d in zip(kwn, fn.kwdefaults):
        if d is not MISSING:
            vals.setdefault(n, d)
    for n in names + kwn:
        if n not in vals:
            self.raise_("TypeError", "missing argument %s of %s" % (n, fn.name))
    return vals


@meth
def call_fn(self, fn, args, kw):
    q = fn.qual
    sm = self.summaries.get(q)
    if sm is not None:
        vals = self.bind(fn, args, kw)
        r = sm(self, vals)
        if r is not NotImplemented:
            self.used_contracts.add(q)
            return r
    return self.inline(fn, args, kw)


@meth
def inline(self, fn, args, kw):
    self.inlined.add(fn.qual)
    vals = self.bind(fn, args, kw)
    f = Frame(self, {})
    f.fn, f.ctypes, f.glob, f.outer, f.node = fn, {}, fn.glob, fn.closure, fn.node
    is_cy = getattr(fn.node, "is_cy", False)
    for x in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs:
        an = x.annotation
        if isinstance(an, ast.Constant) and isinstance(an.value, str) and an.value.startswith("c:"):
            ct = an.value[2:]
            f.ctypes = dict(f.ctypes)
            f.ctypes[x.arg] = ct
            if ct in CT:
                vals[x.arg] = self.c_coerce(ct, vals[x.arg])
            elif ct in ("str", "list", "dict", "bytes"):
                pass
    if not is_cy:
        vals = {k: (self.pyint(v) if isinstance(v, CV) else v) for k, v in vals.items()}
    f.c = vals
    self.depth += 1
    if self.depth > 60:
        raise Unsupported("recursion depth")
    try:
        self.stmts(fn.node.body, f)
        r = None
    except ReturnX as x:
        r = x.v
    finally:
        self.depth -= 1
    cr = getattr(fn.node, "c_ret", None)
    if cr and cr in CT and r is not None:
        r = self.c_coerce(cr, r)
    elif isinstance(r, CV):
        r = CV(r.ct, r.t) if is_cy and getattr(fn.node, "c_func", False) and cr else self.pyint(r)
    return r


@meth
def construct(self, cls, args, kw):
    if cls.d.get("__bi_new__") is not None:
        return cls.d["__bi_new__"](self, cls, args, kw)
    if cls.members is not None:
        return self.enum_of(cls, args[0])
    if self.B["BaseException"] in cls.mro:
        return ExcV(cls, tuple(args))
    new, owner = cls.lookup("__new__")
    if isinstance(new, Fn):
        o = self.call(new, [cls] + list(args), kw)
        ini, _ = cls.lookup("__init__")
        if isinstance(ini, Fn) and getattr(o, "cls", None) is cls:
            self.call(ini, [o] + list(args), kw)
        return o
    for b in cls.mro:
        if isinstance(b, Cls) and b.d.get("__bi_newsub__") is not None:
            return b.d["__bi_newsub__"](self, cls, args, kw)
    o = Obj(self, cls)
    ini, _ = cls.lookup("__init__")
    if isinstance(ini, (Fn, StaticM)):
        self.call(ini, [o] + list(args), kw)
    elif "__dataclass__" in cls.d:
        names = cls.d["__dataclass__"]
        vals = dict(zip(names, args))
        vals.update(kw)
        for n in names:
            if n not in vals:
                self.raise_("TypeError", "missing " + n)
        o.c = vals
    elif args or kw:
        self.raise_("TypeError", "no arguments expected")
    return o


@meth
def enum_of(self, cls, v):
    if isinstance(v, (EnumVal, SymEnum)) and v.cls is cls:
        return v
    if isinstance(v, (int, str)) and not isinstance(v, bool):
        for m in cls.members.values():
            if m.value == v:
                return m
        self.raise_("ValueError", "not a valid %s" % cls.name)
    if is_t(v) and v.sort() == Str:
        for m in cls.members.values():
            if self.branch(v == self.T.lit(m.value)):
                return m
        self.raise_("ValueError", "not a valid %s" % cls.name)
    t = self.int_t(v)
    ok = z3.Or(*[t == m.value for m in cls.members.values()])
    if not self.branch(ok):
        self.raise_("ValueError", "not a valid %s" % cls.name)
    return SymEnum(cls, t)


# -------------------------------------------------------------- attributes
@meth
def getattr_special(self, o, name):
    cls = self.cls_of(o)
    if cls is None:
        return None
    v, owner = cls.lookup(name)
    if v is None:
        return None
    return self.bind_attr(v, o, cls)


@meth
def cls_of(self, o):
    if isinstance(o, Obj):
        return o.cls
    if isinstance(o, (EnumVal, SymEnum)):
        return o.cls
    return getattr(o, "cls", None)


@meth
def bind_attr(self, v, o, cls):
    if isinstance(v, Prop):
        return self.call(v.get, [o], {})
    if isinstance(v, StaticM):
        return v.fn
    if isinstance(v, ClassM):
        return Bound(cls, v.fn)
    if isinstance(v, (Fn, BI)):
        return Bound(o, v)
    return v


@meth_as('getattr')
def m_getattr(self, o, name):
    if isinstance(o, Poison):
        raise Unsupported(o.why)
    if isinstance(o, Mod):
        if name in o.d:
            return o.d[name]
        sub = o.name + "." + name
        if sub in self.ext:
            return self.module(sub)
        if sub in self.B:
            return self.B[sub]
        if o.name.startswith("finalfusion"):
            try:
                return self.module(sub)
            except FileNotFoundError:
                self.raise_("AttributeError", name)
        return self.B["__opaque__"](sub)
    if isinstance(o, Cls):
        if name == "__name__":
            return o.name
        if name == "__qualname__":
            return o.name
        v, owner = o.lookup(name)
        if v is None:
            self.raise_("AttributeError", "%s.%s" % (o.name, name))
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(o, v.fn)
        return v
    if isinstance(o, SuperV):
        cls = self.cls_of(o.obj) if not isinstance(o.obj, Cls) else o.obj
        v, owner = cls.lookup(name, after=o.cls)
        if v is None:
            h = getattr(o.obj, "super_attr", None)
            if h is not None:
                return h(self, name)
            if name == "__init__":
                return BI("object.__init__", lambda e, a, k: None)
            self.raise_("AttributeError", name)
        if isinstance(o.obj, Cls):
            return self.bind_attr(v, o.obj, cls) if not isinstance(v, Fn) else v
        return self.bind_attr(v, o.obj, cls)
    if isinstance(o, Obj):
        if name == "__class__":
            return o.cls
        v, owner = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(v.get, [o], {})
        if name in o.c:
            x = o.c[name]
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return x
        if v is not None:
            return self.bind_attr(v, o, o.cls)
        self.raise_("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
    if isinstance(o, EnumVal):
        if name == "value":
            return o.value
        if name == "name":
            return o.name
        v, owner = o.cls.lookup(name)
        if v is not None:
            return self.bind_attr(v, o, o.cls)
        self.raise_("AttributeError", name)
    if isinstance(o, SymEnum):
        if name == "value":
            return o.t
        v, owner = o.cls.lookup(name)
        if v is not None:
            return self.bind_attr(v, o, o.cls)
        raise Unsupported("attribute of symbolic enum")
    if isinstance(o, Fn) and name == "__name__":
        return o.name
    h = getattr(o, "attr", None)
    if h is not None:
        return h(self, name)
    return self.builtin_attr(o, name)


@meth_as('setattr')
def m_setattr(self, o, name, v):
    if isinstance(o, Obj):
        p, owner = o.cls.lookup(name)
        if isinstance(p, Prop):
            if p.set is None:
                self.raise_("AttributeError", "can't set " + name)
            return self.call(p.set, [o, v], {})
        ct = o.cls.cattrs.get(name)
        if ct is not None and ct in CT:
            v = self.c_coerce(ct, v)
        elif isinstance(v, CV):
            v = self.pyint(v)
        nc = dict(o.c)
        nc[name] = v
        o.c = nc
        return
    h = getattr(o, "setattr", None)
    if h is not None:
        return h(self, name, v)
    raise Unsupported("attribute assignment on %s" % type(o).__name__)


# ---------------------------------------------------------------- truth
@meth
def truth_t(self, v):
    """bool or z3 Bool"""
    if v is None:
        return False
    if isinstance(v, (bool, int, str, bytes, float)):
        return bool(v)
    if isinstance(v, tuple):
        return bool(v)
    if is_t(v):
        if v.sort() == B:
            return v
        if v.sort() in (I, R):
            return v != 0
        if z3.is_bv(v):
            return v != 0
        if v.sort() == Str:
            return slen(v) != 0
    if isinstance(v, CV):
        t = v.t
        return bool(t) if isinstance(t, int) else t != 0
    if isinstance(v, (EnumVal, SymEnum)):
        return self.truth_t(v.value) if isinstance(v, EnumVal) else v.t != 0
    if isinstance(v, (Lst, Seq)):
        return self.nonempty(self.items_of(v))
    if isinstance(v, (Cls, Fn, Bound, BI, Mod, ExcV)):
        return True
    if isinstance(v, Obj):
        m = self.getattr_special(v, "__bool__")
        if m is not None:
            return self.truth_t(self.call(m, [], {}))
        m = self.getattr_special(v, "__len__")
        if m is not None:
            return self.truth_t(self.call(m, [], {}))
        return True
    h = getattr(v, "truth", None)
    if h is not None:
        return h(self)
    if isinstance(v, (Dct, St)):
        c = self.dict_card(v)
        return bool(c) if isinstance(c, int) else c != 0
    if isinstance(v, FStr):
        return True
    raise Unsupported("truth of %s" % type(v).__name__)


@meth
def truth(self, v):
    return self.branch(self.truth_t(v))


@meth
def nonempty(self, items):
    """bool/Bool: the item tree has at least one element; a symbolic answer is
    backed by facts (witness if non-empty, universally quantified guard if empty)"""
    c = self.norm(self.count_items_plain(items)) if all(not self._guarded(i) for i in items) else None
    if c is not None:
        return c > 0 if isinstance(c, int) else self.norm(c > 0)
    key = ("nonempty", tuple(id(i) for i in items))
    memo = self.__dict__.setdefault("_ne", {})
    b = self.T.fresh("ne", B)
    w, cond = self.witness(items)
    self.assume(z3.Implies(b, cond))
    self.assume(z3.Implies(z3.Not(b), self.none_cond(items)))
    return b


@meth
def count_items_plain(self, items):
    return self.count_items(items)


@meth
def _guarded(self, it):
    if isinstance(it, IfI):
        return True
    if isinstance(it, For):
        return any(self._guarded(x) or isinstance(x, For) for x in it.items)
    return False


@meth
def witness(self, items):
    """(list of (var)), condition that some element exists, over fresh witnesses"""
    alts = []
    for it in items:
        if isinstance(it, E):
            alts.append(z3.BoolVal(True))
        elif isinstance(it, For):
            k = self.T.fresh("w")
            _, c = self.witness(self.subst_items(it.items, it.k, k))
            alts.append(z3.And(k >= 0, k < it.n, c))
        elif isinstance(it, IfI):
            _, a = self.witness(it.a)
            _, b = self.witness(it.b)
            alts.append(z3.Or(z3.And(it.cond, a), z3.And(z3.Not(it.cond), b)))
        else:
            raise Unsupported("emptiness of a list being built")
    return None, (z3.Or(*alts) if alts else z3.BoolVal(False))


@meth
def none_cond(self, items):
    cs = []
    for it in items:
        if isinstance(it, E):
            cs.append(z3.BoolVal(False))
        elif isinstance(it, For):
            q = z3.Const("qn_%s" % it.k, I)
            c = self.none_cond(self.subst_items(it.items, it.k, q))
            body = z3.Implies(z3.And(q >= 0, q < it.n), c)
            cs.append(z3.ForAll([q], body))
        elif isinstance(it, IfI):
            cs.append(z3.Implies(it.cond, self.none_cond(it.a)))
            if it.b:
                cs.append(z3.Implies(z3.Not(it.cond), self.none_cond(it.b)))
    return z3.And(*cs) if cs else z3.BoolVal(True)
