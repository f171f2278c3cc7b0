"""C18: every way of reading quantized storage gives the same reconstruction."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
from arrays import AX, AData, Arr, mk
from storage import sym_quant, sym_arr, QA

QAC = QA + ":QuantizedArray"


def quant(cx, **kw):
    q = sym_quant(cx, "=", **kw)
    a, b = z3.Const("q_0", I), z3.Const("q_1", I)
    c = q["C"].at(a, b)
    cx.requires(z3.ForAll([a, b], c < q["nc"], patterns=[c]))       # codes denote existing centroids
    cx.requires(q["ds"] >= 1)
    return q


def row(cx, q, i, j):
    """element j of the reconstruction of row i"""
    e, ds = cx.e, q["ds"]
    base = lambda t: q["Q"].at(t / ds, q["C"].at(i, t / ds), t % ds)
    if q["P"] is None:
        r = base(j)
    else:
        k = e.T.fresh("k")
        r = e.T.sum(k, q["ql"] * ds, base(k) * q["P"].at(j, k))
    return r if q["N"] is None else q["N"].at(i) * r


def dims(q):
    return z3.simplify(q["ql"] * q["ds"])


def rows_data(cx, q, n, ix):
    """matrix of the rows ix(0..n)"""
    return AData([n, dims(q)], "float32", row(cx, q, ix(AX[0]), AX[1]))


def row_data(cx, q, i):
    return AData([dims(q)], "float32", row(cx, q, i, AX[0]))


def same(cx, name, r, d):
    if not isinstance(r, Arr):
        return cx.record(name, prove.Why("refuted", "got %r" % (r,)))
    cx.record(name, r.values().prove_eq(cx.e, d, name))


def frame(cx, q, name="the storage is unchanged"):
    """C16: quantizers, projection, norms and codes hold what they held"""
    e = cx.e
    pq = e.getattr(q["v"], "quantizer")
    for x, v in (("Q", e.getattr(pq, "subquantizers")), ("P", e.getattr(pq, "projection")), ("N", e.getattr(q["v"], "_norms")), ("C", e.getattr(q["v"], "_quantized_embeddings"))):
        if q[x] is None or not isinstance(v, Arr):
            cx.record(name, None if q[x] is None and v is None else prove.Why("refuted", "%s: %r" % (x, v)))
        else:
            cx.record(name, v.values().prove_eq(e, q[x], name))


def norm_ix(n, i):
    return z3.If(i < 0, i + n, i)


@contract(["C18", "C16"], "QuantizedArray[int]", [QAC + ".__getitem__", QAC + ".embedding", QA + ":PQ.reconstruct"])
def q_int(cx):
    """q[i] and q.embedding(i), i in [-n, n), are the reconstruction of row i; other indices raise"""
    q = quant(cx)
    i = cx.int("i")
    via = cx.choose("__getitem__", "embedding")
    k, r = cx.outcome(cx.e.getattr(q["v"], via), i)
    if k == "raise":
        cx.ensure("only indices out of range raise", z3.Not(z3.And(i >= -q["n"], i < q["n"])))
    else:
        cx.ensure("indices out of range raise", z3.And(i >= -q["n"], i < q["n"]))
        same(cx, "row i is the reconstruction", r, row_data(cx, q, norm_ix(q["n"], i)))
    frame(cx, q)


@contract(["C18", "C16"], "QuantizedArray[list]", [QAC + ".__getitem__", QAC + ".embedding", QA + ":PQ.reconstruct"])
def q_list(cx):
    """q[list] is the matrix of the reconstructions of the listed rows, for lists of any length"""
    q = quant(cx)
    m, f = cx.int("m", 0, 2 ** 40), cx.func("ix", I, I)
    a = z3.Const("q_0", I)
    cx.requires(z3.ForAll([a], z3.And(f(a) >= -q["n"], f(a) < q["n"]), patterns=[f(a)]))
    key = cx.list(m, f) if cx.choose(True, False) else mk(cx.e, [m], f(AX[0]), "int64")
    via = cx.choose("__getitem__", "embedding")
    r = cx.method(q["v"], via, key)
    same(cx, "rows are the reconstructions", r, rows_data(cx, q, m, lambda t: norm_ix(q["n"], f(t))))
    frame(cx, q)


@contract(["C18", "C16"], "QuantizedArray.embedding.out", [QAC + ".embedding", QA + ":PQ.reconstruct"])
def q_out(cx):
    """embedding(key, out) writes the same values into out, whatever it held, and returns it"""
    q = quant(cx)
    lst = cx.choose(False, True)
    if lst:
        m, f = cx.int("m", 0, 2 ** 40), cx.func("ix", I, I)
        a = z3.Const("q_0", I)
        cx.requires(z3.ForAll([a], z3.And(f(a) >= 0, f(a) < q["n"]), patterns=[f(a)]))
        key, want, shape = cx.list(m, f), rows_data(cx, q, m, f), [m, dims(q)]
    else:
        i = cx.int("i", 0)
        cx.requires(i < q["n"])
        key, want, shape = i, row_data(cx, q, i), [dims(q)]
    out = sym_arr(cx, "out", shape)
    r = cx.method(q["v"], "embedding", key, out) if cx.choose(True, False) else cx.method(q["v"], "embedding", key, out=out)
    cx.record("out is returned", None if r is out else prove.Why("refuted", "returns %r" % (r,)))
    same(cx, "out holds the reconstruction", out, want)
    frame(cx, q)


@contract(["C18", "C16"], "QuantizedArray[slice]", [QAC + ".__getitem__", QAC + ".__init__", QAC + ".shape", QAC + ".__len__"])
def q_slice(cx):
    """q[lo:hi] is quantized storage with exactly those rows, read as an array, by index or by list"""
    q = quant(cx)
    lo = cx.choose(None, cx.int("lo", 0))
    hi = cx.choose(None, cx.int("hi", 0))
    n = q["n"]
    l = iv(0) if lo is None else z3.If(lo > n, n, lo)
    h = n if hi is None else z3.If(hi > n, n, hi)
    ln = z3.If(h > l, h - l, iv(0))
    s = cx.method(q["v"], "__getitem__", Sl(lo, hi, None))
    if not isinstance(s, Obj) or s.cls.name != "QuantizedArray":
        return cx.record("a slice is quantized storage", prove.Why("refuted", "got %r" % (s,)))
    cx.record("a slice is quantized storage", None)
    cx.ensure("length of the slice", cx.e.int_t(cx.call("builtins:len", s) if False else cx.spec("len(s)", s=s)) == ln)
    cx.ensure("shape of the slice", cx.spec("s.shape[0] == n and s.shape[1] == d", s=s, n=ln, d=dims(q)))
    how = cx.choose("array", "int", "list")
    if how == "array":
        same(cx, "rows of the slice", cx.method(s, "__array__"), rows_data(cx, q, ln, lambda t: l + t))
    elif how == "int":
        i = cx.int("i", 0)
        cx.requires(i < ln)
        same(cx, "row of the slice", cx.method(s, "__getitem__", i), row_data(cx, q, l + i))
    else:
        m, f = cx.int("m", 0, 2 ** 40), cx.func("ix", I, I)
        a = z3.Const("q_0", I)
        cx.requires(z3.ForAll([a], z3.And(f(a) >= 0, f(a) < ln), patterns=[f(a)]))
        same(cx, "listed rows of the slice", cx.method(s, "__getitem__", cx.list(m, f)), rows_data(cx, q, m, lambda t: l + f(t)))
    frame(cx, q)


@contract(["C18", "C16"], "QuantizedArray.__iter__", [QAC + ".__iter__", QAC + ".embedding", QA + ":PQ.reconstruct"])
def q_iter(cx):
    """iterating yields exactly the n rows in order"""
    q = quant(cx)
    items = cx.spec("[x for x in q]", q=q["v"])
    same(cx, "the rows in order", cx.call("numpy:asarray", items) if False else arrays.asarray(cx.e, items, arrays.DType("float32")), rows_data(cx, q, q["n"], lambda t: t))
    frame(cx, q)


@contract(["C18", "C16"], "QuantizedArray.__array__", [QAC + ".__array__", QA + ":PQ.reconstruct"])
def q_array(cx):
    """the array conversion (also with a dtype, and through numpy) is the matrix of all reconstructions"""
    q = quant(cx)
    how = cx.choose("array", "dtype", "asarray")
    if how == "asarray":
        r = arrays.asarray(cx.e, q["v"])
    else:
        r = cx.method(q["v"], "__array__", *([arrays.DType("float32")] if how == "dtype" else []))
    same(cx, "all rows", r, rows_data(cx, q, q["n"], lambda t: t))
    frame(cx, q)


@contract("C18", "QuantizedArray.shape", [QAC + ".shape", QAC + ".__len__", QA + ":PQ.__init__"])
def q_shape(cx):
    """shape and length are the number of rows and reconstructed components"""
    q = quant(cx)
    cx.ensure("shape", cx.spec("s.shape[0] == n and s.shape[1] == d and len(s) == n and len(s.shape) == 2", s=q["v"], n=q["n"], d=dims(q)))
    i = cx.choose(None)
    k, r = cx.outcome(cx.e.getattr(q["v"], "__getitem__"), None)
    cx.record("None is no key", None if k == "raise" else prove.Why("refuted", "returns %r" % (r,)))
