"""Front end: parses the real sources of /repo/src/finalfusion on every run.

* ``.py``  -> Python ``ast``.
* ``.pyx`` -> the Cython compiler's own parser; the tree is converted node by
  node to Python ``ast``.  C declarations become annotated assignments whose
  annotation is ``Constant("c:<ctype>")``; casts, address-of and C-level calls
  become calls of ``__cast__`` / ``__addr__``.  Nothing else is dropped except
  docstrings, ``cimport`` lines and compiler directives.
"""
import ast, os

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class FrontendError(Exception):
    pass


# --------------------------------------------------------------------- cython
def _parse_pyx(path):
    from Cython.Compiler import Errors, Options
    from Cython.Compiler.Main import Context
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = Options.CompilationOptions(Options.default_options)
    ctx = Context.from_options(opts)
    src = FileSourceDescriptor(path, path)
    scope = ctx.find_module("m", pos=(src, 1, 0), need_pxd=0)
    ctx.language_level = 3
    Errors.init_thread()
    return ctx.parse(src, scope, pxd=0, full_module_name="m")


class Conv:
    def __init__(self, path):
        self.path = path

    def err(self, n):
        raise FrontendError("%s: unsupported Cython node %s at %s" % (self.path, type(n).__name__, getattr(n, "pos", None) and n.pos[1:]))

    def loc(self, new, n):
        line = n.pos[1] if getattr(n, "pos", None) else 1
        for x in ast.walk(new):
            if not hasattr(x, "lineno"):
                x.lineno = x.end_lineno = line
                x.col_offset = x.end_col_offset = 0
        new.lineno = line
        new.col_offset = 0
        return new

    # types ------------------------------------------------------------
    def ctype(self, base, decl=None):
        t = type(base).__name__
        if t == "CQualifierTypeNode":
            s = self.ctype(base.base_type)
        elif t == "CConstTypeNode":
            s = self.ctype(base.base_type)
        elif t == "CSimpleBaseTypeNode":
            s = base.name
            if s is None:
                s = None
            else:
                if base.module_path:
                    s = ".".join(list(base.module_path) + [s])
                if base.is_basic_c_type:
                    sg = {0: "unsigned ", 1: "", 2: "signed "}[base.signed] if base.name not in ("float", "double", "bint", "void", "Py_ssize_t", "size_t") else ""
                    ln = "long " * base.longness if base.longness > 0 else ("short " if base.longness < 0 else "")
                    s = (sg + ln + s).replace("long int", "long").replace("short int", "short")
        else:
            self.err(base)
        d = decl
        while d is not None:
            if type(d).__name__ == "CPtrDeclaratorNode":
                s = (s or "") + "*"
                d = d.base
            elif type(d).__name__ in ("CFuncDeclaratorNode",):
                d = d.base
            else:
                break
        return s

    def declname(self, d):
        while type(d).__name__ in ("CPtrDeclaratorNode", "CFuncDeclaratorNode"):
            d = d.base
        return d

    # statements -------------------------------------------------------
    def body(self, n):
        out = self.stmts(n)
        return out or [self.loc(ast.Pass(), n)]

    def stmts(self, n):
        if n is None:
            return []
        t = type(n).__name__
        if t == "StatListNode":
            r = []
            for s in n.stats:
                r.extend(self.stmts(s))
            return r
        m = getattr(self, "s_" + t, None)
        if m is None:
            self.err(n)
        r = m(n)
        if r is None:
            return []
        return [self.loc(x, n) for x in (r if isinstance(r, list) else [r])]

    def s_CImportStatNode(self, n):
        return None

    def s_FromCImportStatNode(self, n):
        a = []
        for it in n.imported_names:
            a.append(ast.alias(name=it[1], asname=it[2]))
        r = ast.ImportFrom(module="__c__." + n.module_name, names=a, level=0)
        return r

    def s_FromImportStatNode(self, n):
        mod = n.module
        name = mod.module_name.value
        names = [ast.alias(name=i[0], asname=None if i[1].name == i[0] else i[1].name) for i in n.items]
        return ast.ImportFrom(module=str(name), names=names, level=max(0, mod.level or 0))

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nm = self.declname(d)
            ct = self.ctype(n.base_type, d)
            val = self.e(nm.default) if getattr(nm, "default", None) is not None else None
            out.append(ast.AnnAssign(target=ast.Name(id=nm.name, ctx=ast.Store()), annotation=ast.Constant("c:%s" % ct), value=val, simple=1))
        return out

    def args(self, args, star=None, starstar=None):
        a, defaults = [], []
        for x in args:
            ct = self.ctype(x.base_type, x.declarator)
            nm = self.declname(x.declarator).name
            if not nm:
                # untyped: the "type" is the name
                nm, ct = ct, None
            ann = ast.Constant("c:%s" % ct) if ct else None
            a.append(ast.arg(arg=nm, annotation=ann))
            if x.default is not None:
                defaults.append(self.e(x.default))
        return ast.arguments(posonlyargs=[], args=a, vararg=ast.arg(arg=star.name) if star else None, kwonlyargs=[], kw_defaults=[], kwarg=ast.arg(arg=starstar.name) if starstar else None, defaults=defaults)

    def strip_doc(self, b):
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b = b[1:]
        return b or [ast.Pass(lineno=1, col_offset=0)]

    def s_DefNode(self, n):
        f = ast.FunctionDef(name=n.name, args=self.args(n.args, n.star_arg, n.starstar_arg), body=self.strip_doc(self.body(n.body)), decorator_list=[self.e(d.decorator) for d in (n.decorators or [])], returns=None)
        f.is_cy = True
        f.c_ret = None
        return f

    def s_CFuncDefNode(self, n):
        d = n.declarator
        ct = self.ctype(n.base_type, d)
        while type(d).__name__ == "CPtrDeclaratorNode":
            d = d.base
        f = ast.FunctionDef(name=d.base.name, args=self.args(d.args), body=self.strip_doc(self.body(n.body)), decorator_list=[self.e(x.decorator) for x in (n.decorators or [])], returns=None)
        f.is_cy = True
        f.c_ret = ct
        f.c_func = not n.overridable
        return f

    def s_CClassDefNode(self, n):
        bases = [self.e(b) for b in (n.bases.args if n.bases else [])]
        return ast.ClassDef(name=n.class_name, bases=bases, keywords=[], body=self.strip_doc(self.body(n.body)), decorator_list=[])

    def s_PyClassDefNode(self, n):
        bases = [self.e(b) for b in (n.bases.args if n.bases else [])]
        return ast.ClassDef(name=n.name, bases=bases, keywords=[], body=self.strip_doc(self.body(n.body)), decorator_list=[])

    def s_AssertStatNode(self, n):
        v = n.value
        return ast.Assert(test=self.e(n.condition), msg=self.e(v) if v is not None else None)

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            return ast.Import(names=[ast.alias(name=str(n.rhs.module_name.value), asname=None)])
        return ast.Assign(targets=[self.e(n.lhs, True)], value=self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.e(l, True) for l in n.lhs_list], value=self.e(n.rhs))

    OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.e(n.lhs, True), op=self.OPS[n.operator](), value=self.e(n.rhs))

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.e(n.expr))

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.e(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause)
        for c in reversed(n.if_clauses):
            i = ast.If(test=self.e(c.condition), body=self.body(c.body), orelse=orelse)
            orelse = [self.loc(i, c)]
        return orelse[0]

    def s_ForInStatNode(self, n):
        return ast.For(target=self.e(n.target, True), iter=self.e(n.iterator.sequence), body=self.body(n.body), orelse=self.stmts(n.else_clause))

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition) if n.condition is not None else ast.Constant(True), body=self.body(n.body), orelse=self.stmts(n.else_clause))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            ty = None
            if c.pattern:
                ty = self.e(c.pattern[0]) if len(c.pattern) == 1 else ast.Tuple(elts=[self.e(p) for p in c.pattern], ctx=ast.Load())
            hs.append(ast.ExceptHandler(type=ty, name=c.target.name if c.target is not None else None, body=self.body(c.body)))
        return ast.Try(body=self.body(n.body), handlers=hs, orelse=self.stmts(n.else_clause), finalbody=[])

    # expressions ------------------------------------------------------
    def e(self, n, store=False):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.err(n)
        ctx = ast.Store() if store else ast.Load()
        r = m(n, ctx)
        return self.loc(r, n)

    def e_NameNode(self, n, c):
        return ast.Name(id=n.name, ctx=c)

    def e_AttributeNode(self, n, c):
        return ast.Attribute(value=self.e(n.obj), attr=n.attribute, ctx=c)

    def e_IntNode(self, n, c):
        v = n.value
        return ast.Constant(int(str(v).rstrip("uUlL"), 0))

    def e_FloatNode(self, n, c):
        return ast.Constant(float(n.value))

    def e_UnicodeNode(self, n, c):
        return ast.Constant(str(n.value))
    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n, c):
        v = n.value
        return ast.Constant(v.byteencode() if hasattr(v, "byteencode") else bytes(v))

    def e_CharNode(self, n, c):
        return ast.Constant(ord(n.value))

    def e_BoolNode(self, n, c):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n, c):
        return ast.Constant(None)

    def binop(self, n, c):
        return ast.BinOp(left=self.e(n.operand1), op=self.OPS[n.operator](), right=self.e(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_NumBinopNode = binop

    def e_BoolBinopNode(self, n, c):
        return ast.BoolOp(op=ast.And() if n.operator == "and" else ast.Or(), values=[self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n, c):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def e_UnaryMinusNode(self, n, c):
        return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))

    def e_TildeNode(self, n, c):
        return ast.UnaryOp(op=ast.Invert(), operand=self.e(n.operand))

    CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq, "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn}

    def e_PrimaryCmpNode(self, n, c):
        ops, comps = [self.CMP[n.operator]()], [self.e(n.operand2)]
        k = n.cascade
        while k is not None:
            ops.append(self.CMP[k.operator]())
            comps.append(self.e(k.operand2))
            k = k.cascade
        return ast.Compare(left=self.e(n.operand1), ops=ops, comparators=comps)

    def e_IndexNode(self, n, c):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=c)

    def e_SliceIndexNode(self, n, c):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Subscript(value=self.e(n.base), slice=ast.Slice(lower=f(n.start), upper=f(n.stop), step=None), ctx=c)

    def e_SliceNode(self, n, c):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def e_TupleNode(self, n, c):
        return ast.Tuple(elts=[self.e(x, isinstance(c, ast.Store)) for x in n.args], ctx=c)

    def e_ListNode(self, n, c):
        return ast.List(elts=[self.e(x, isinstance(c, ast.Store)) for x in n.args], ctx=c)

    def e_SetNode(self, n, c):
        return ast.Set(elts=[self.e(x) for x in n.args])

    def e_DictNode(self, n, c):
        return ast.Dict(keys=[self.e(p.key) for p in n.key_value_pairs], values=[self.e(p.value) for p in n.key_value_pairs])

    def e_SimpleCallNode(self, n, c):
        return ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n, c):
        pos = n.positional_args
        args = [self.e(a) for a in getattr(pos, "args", [])]
        kws = []
        if n.keyword_args is not None:
            for p in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(arg=str(p.key.value), value=self.e(p.value)))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def e_CondExprNode(self, n, c):
        return ast.IfExp(test=self.e(getattr(n, "condition", None) or n.test), body=self.e(n.true_val), orelse=self.e(n.false_val))

    def e_JoinedStrNode(self, n, c):
        return ast.JoinedStr(values=[self.e(v) for v in n.values])

    def e_FormattedValueNode(self, n, c):
        conv = ord(n.conversion_char) if n.conversion_char else -1
        return ast.FormattedValue(value=self.e(n.value), conversion=conv, format_spec=None)

    def e_TypecastNode(self, n, c):
        ct = self.ctype(n.base_type, n.declarator)
        return ast.Call(func=ast.Name(id="__cast__", ctx=ast.Load()), args=[ast.Constant(ct), self.e(n.operand)], keywords=[])

    def e_AmpersandNode(self, n, c):
        return ast.Call(func=ast.Name(id="__addr__", ctx=ast.Load()), args=[self.e(n.operand)], keywords=[])

    def e_LambdaNode(self, n, c):
        return ast.Lambda(args=self.args(n.args, n.star_arg, n.starstar_arg), body=self.e(n.result_expr))

    def _gen(self, loop):
        gens, n = [], loop
        while True:
            t = type(n).__name__
            if t == "ForInStatNode":
                gens.append(ast.comprehension(target=self.e(n.target, True), iter=self.e(n.iterator.sequence), ifs=[], is_async=0))
                n = n.body
            elif t == "IfStatNode":
                gens[-1].ifs.append(self.e(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            elif t == "StatListNode" and len(n.stats) == 1:
                n = n.stats[0]
            elif t == "ExprStatNode":
                n = n.expr
            else:
                return n, gens

    def e_GeneratorExpressionNode(self, n, c):
        leaf, gens = self._gen(n.loop)
        return ast.GeneratorExp(elt=self.e(leaf.arg), generators=gens)

    def e_ComprehensionNode(self, n, c):
        leaf, gens = self._gen(n.loop)
        if type(leaf).__name__ == "DictComprehensionAppendNode":
            return ast.DictComp(key=self.e(leaf.key_expr), value=self.e(leaf.value_expr), generators=gens)
        kind = getattr(n.type, "name", "list")
        cls = ast.SetComp if kind == "set" else ast.ListComp
        return cls(elt=self.e(leaf.expr), generators=gens)


def convert_pyx(path):
    t = _parse_pyx(path)
    c = Conv(path)
    m = ast.Module(body=c.stmts(t.body), type_ignores=[])
    return ast.fix_missing_locations(m)


# --------------------------------------------------------------------- modules
def module_file(name):
    p = os.path.join(SRC, *name.split("."))
    for q in (p + ".py", p + ".pyx", os.path.join(p, "__init__.py")):
        if os.path.exists(q):
            return q
    return None


_cache = {}


def load_tree(name):
    """(ast.Module, is_cython, path)"""
    if name not in _cache:
        f = module_file(name)
        if f is None:
            raise FrontendError("no module " + name)
        if f.endswith(".pyx"):
            _cache[name] = (convert_pyx(f), True, f)
        else:
            with open(f, encoding="utf-8") as h:
                _cache[name] = (ast.parse(h.read(), f), False, f)
    return _cache[name]


if __name__ == "__main__":
    import sys
    for n in sys.argv[1:]:
        print(ast.unparse(load_tree(n)[0]))
