"""C17: what embeddings, dense storage and norms can be built from; setters."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
from arrays import Arr, mk
from chunks import sym_vocab
from vocab import KINDS
from storage import sym_nd, sym_quant, sym_norms, sym_meta, sym_arr, ND, NM
from embeds import EM

NDC, NMC = ND + ":NdArray", NM + ":Norms"


def any_array(cx):
    """(array, ndim, dtype name) of any dtype and dimension up to 4"""
    dt = cx.choose("float32", "float64", "uint8", "int64")
    nd = cx.choose(0, 1, 2, 3, 4)
    if nd == 0:
        return mk(cx.e, [], arrays.z3.Const("x0", arrays.sort_of_dt(dt)), dt), 0, dt
    return sym_arr(cx, "X", [cx.int("s%d" % i, 0, 2 ** 20) for i in range(nd)], dt, bo=cx.choose("=", ">")), nd, dt


def only(cx, cls, ndim):
    a, nd, dt = any_array(cx)
    d = a.data()
    k, r = cx.outcome(cls, a)
    if nd == ndim and dt == "float32":
        if k != "return":
            return cx.fail("%d-d single-precision arrays are accepted" % ndim, "raises %r" % (r,))
        cx.record("%d-d single-precision arrays are accepted" % ndim, None)
        cx.record("result is of the class", None if isinstance(r, Arr) and r.cls_ is cx.fn(cls) else prove.Why("refuted", "got %r" % (r,)))
        cx.record("the values are the array's", r.values().prove_eq(cx.e, d, "values"))
    elif k == "return":
        cx.fail("anything else is rejected", "accepts a %d-d %s array" % (nd, dt))
    else:
        cx.record("anything else is rejected", None)


@contract("C17", "NdArray", [NDC + ".__new__"])
def nd_new(cx):
    """dense storage accepts exactly 2-d single-precision arrays and keeps their values"""
    only(cx, NDC, 2)


@contract("C17", "Norms", [NMC + ".__new__"])
def norms_new(cx):
    """norms accept exactly 1-d single-precision arrays and keep their values"""
    only(cx, NMC, 1)


def any_parts(cx, junk=True):
    """storage, vocabulary, norms, metadata of arbitrary sizes, each possibly of a wrong type; ok: they are consistent"""
    e = cx.e
    kind = cx.choose(*KINDS)
    f = sym_vocab(cx, kind)
    v = f["v"]
    ub = e.int_t(e.getattr(v, "upper_bound"))
    sk = cx.choose("NdArray", "QuantizedArray")
    rows = cx.int("rows", 0, 2 ** 40)
    s = sym_nd(cx, "=", rows=rows)[0] if sk == "NdArray" else sym_quant(cx, "=", n=rows, P=False, N=False)["v"]
    nn = cx.int("n_norms", 0, 2 ** 40)
    nm = cx.choose(None, "norms")
    nm = sym_norms(cx, "=", n=nn)[0] if nm else None
    m = sym_meta(cx)[0] if cx.choose(True, False) else None
    ok = rows == ub
    if nm is not None:
        ok = z3.And(ok, nn == f["n"])
    return f, s, v, nm, m, ok, nn


def kept(cx, r, s, v, nm, m, pre=""):
    for a, x in (("storage", s), ("vocab", v), ("norms", nm), ("metadata", m)):
        y = cx.e.getattr(r, a)
        cx.record(pre + a, None if y is x else prove.Why("refuted", "%s is %r, not %r" % (a, y, x)))


@contract("C17", "Embeddings", [EM + ":Embeddings.__init__", EM + ":Embeddings._check_requirements", EM + ":Embeddings._norms_compat"], max_paths=2000)
def emb_new(cx):
    """embeddings can be built exactly if the number of rows is the upper bound and the number of norms that of the words"""
    f, s, v, nm, m, ok, _ = any_parts(cx)
    k, r = cx.outcome(EM + ":Embeddings", s, v, nm, m)
    if k == "return":
        cx.ensure("only consistent parts are accepted", ok)
        kept(cx, r, s, v, nm, m, "keeps the ")
    else:
        cx.ensure("consistent parts are accepted", z3.Not(ok))


@contract("C17", "Embeddings.types", [EM + ":Embeddings.__init__", EM + ":Embeddings._check_requirements", EM + ":Embeddings._norms_compat"], max_paths=2000)
def emb_types(cx):
    """parts of the wrong type are rejected even if their sizes fit"""
    e = cx.e
    f = sym_vocab(cx, "SimpleVocab")
    n = f["n"]
    cols = cx.int("cols", 0, 2 ** 20)
    raw = sym_arr(cx, "M", [n, cols])
    s, v = cx.call(NDC, raw), f["v"]
    nm, m = cx.choose(None, sym_norms(cx, "=", n=n)[0]), cx.choose(None, sym_meta(cx)[0])
    bad = cx.choose("storage", "vocab", "norms", "metadata")
    if bad == "storage":
        s = cx.choose(raw, None, sym_norms(cx, "=", n=n)[0])
    elif bad == "vocab":
        v = cx.choose(None, e.getattr(v, "words"), s)
    elif bad == "norms":
        nm = cx.choose(sym_arr(cx, "N", [n]), s, raw)
    else:
        m = cx.choose(cx.str("m"), v, cx.spec("{}"))
    k, r = cx.outcome(EM + ":Embeddings", s, v, nm, m)
    if k == "return":
        cx.fail("a wrong type is rejected", "accepts a wrong %s" % bad)
    else:
        cx.record("a wrong type is rejected", None)


@contract("C17", "Embeddings.setters", [EM + ":Embeddings.norms", EM + ":Embeddings.metadata", EM + ":Embeddings._norms_compat"], max_paths=2000)
def emb_set(cx):
    """replaced norms and metadata obey the same conditions; a rejected replacement changes nothing"""
    e = cx.e
    f, s, v, nm, m, ok, _ = any_parts(cx)
    cx.requires(ok)
    r = cx.call(EM + ":Embeddings", s, v, nm, m)
    which = cx.choose("norms", "metadata")
    if which == "norms":
        nn = cx.int("new_n", 0, 2 ** 40)
        new = cx.choose("none", "norms", "raw", "meta")
        x = {"none": lambda: None, "norms": lambda: sym_norms(cx, "=", n=nn)[0], "raw": lambda: sym_arr(cx, "N", [nn]), "meta": lambda: sym_meta(cx)[0]}[new]()
        good = {"none": z3.BoolVal(True), "norms": nn == f["n"]}.get(new, z3.BoolVal(False))
    else:
        new = cx.choose("none", "meta", "str", "norms")
        x = {"none": lambda: None, "meta": lambda: sym_meta(cx)[0], "str": lambda: cx.str("m"), "norms": lambda: nm}[new]()
        good = z3.BoolVal(new in ("none", "meta") or x is None)
    try:
        e.setattr(r, which, x)
        done = True
    except PyRaise:
        done = False
    if done:
        cx.ensure("only proper %s are accepted" % which, good)
        kept(cx, r, s, v, x if which == "norms" else nm, x if which == "metadata" else m, "afterwards: ")
    else:
        cx.ensure("proper %s are accepted" % which, z3.Not(good))
        kept(cx, r, s, v, nm, m, "rejected: keeps the ")
