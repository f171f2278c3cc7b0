"""C10 (and the frame conditions of C16): embedding lookup."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
from arrays import AX, AData, Arr, mk, sqrtR
from vocab import KINDS, words_in, distinct, use_validate, use_sw_abstract, sw_bounds
from storage import sym_nd, sym_norms, sym_arr, ND, NM
from quant import quant, row, frame, QAC
from embeds import EM

EMC = EM + ":Embeddings"


def sym_emb(cx, kinds=None, skinds=("NdArray", "QuantizedArray"), norms=None, PN=(None, None), lookups=True):
    """arbitrary consistent embeddings; dict(e, n, w, ub, row(i, j), cols, norms, sw=(count, index))"""
    e = cx.e
    kind = cx.choose(*(kinds or KINDS))
    mod, mkix = KINDS[kind]
    use_validate(cx)
    ws, n, w = words_in(cx)
    cx.requires(n < 2 ** 40)
    distinct(cx, n, w, True)
    ix, bound = mkix(cx) if mkix else (None, iv(0))
    cx.requires(bound < 2 ** 40)
    sw = use_sw_abstract(cx, bound) if mkix and lookups else None
    v = cx.call(mod + ":" + kind, *([ws] if ix is None else [ws, ix]))
    ub = z3.simplify(n + bound)
    skind = cx.choose(*skinds)
    p = dict(kind=kind, skind=skind, n=n, w=w, ws=ws, ub=ub, sw=sw, v=v, ix=ix, bound=bound)
    if skind == "NdArray":
        s, _, cols, d = sym_nd(cx, "=", rows=ub)
        p.update(storage=s, cols=cols, row=lambda i, j: d.at(i, j), d=d)
        p["frame"] = lambda: cx.record("the matrix is unchanged", s.values().prove_eq(e, d, "matrix"))
    else:
        q = quant(cx, n=ub, P=PN[0], N=PN[1])
        p.update(storage=q["v"], cols=z3.simplify(q["ql"] * q["ds"]), row=lambda i, j: row(cx, q, i, j), q=q)
        p["frame"] = lambda: frame(cx, q, "the matrix is unchanged")
    has = cx.choose(True, False) if norms is None else norms
    nm, nd = None, None
    if has:
        nm, _, nd = sym_norms(cx, "=", n=n)
    p.update(norms=nm, nd=nd)
    p["e"] = cx.call(EMC, p["storage"], v, nm)
    return p


def unchanged(cx, p):
    e, r = cx.e, p["e"]
    p["frame"]()
    ok = all(e.getattr(r, a) is x for a, x in (("storage", p["storage"]), ("vocab", p["v"]), ("norms", p["norms"])))
    cx.record("the components are the same objects", None if ok else prove.Why("refuted", "a component was replaced"))
    if p["nd"] is not None:
        cx.record("the norms are unchanged", p["norms"].values().prove_eq(e, p["nd"], "norms"))
    cx.ensure_eq("the words are unchanged", e.getattr(p["v"], "words"), cx.list(p["n"], p["w"]))


def word_case(cx, p):
    """("known", i, word) | ("sub", count, word) | ("none", None, word)"""
    e, n, w = cx.e, p["n"], p["w"]
    if cx.choose(True, False):
        i = cx.int("i", 0)
        cx.requires(i < n)
        return "known", i, w(i)
    s = cx.str("q")
    ii = z3.Const("q_i", I)
    cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < n), w(ii) != s), patterns=[w(ii)]))
    if p["sw"] is None:
        return "none", None, s
    c = p["sw"][0](s)
    if cx.choose(True, False):
        cx.requires(c == 0)
        return "none", None, s
    cx.requires(c > 0)
    return "sub", c, s


def spec_vec(cx, p, case):
    """(term over AX[0], norm term): the embedding the word has"""
    e = cx.e
    k, i, s = case
    if k == "known":
        return p["row"](i, AX[0]), (p["nd"].at(i) if p["nd"] is not None else None)
    el, m = p["sw"][1], e.T.fresh("m")
    tot = e.T.sum(m, i, p["row"](el(s, m) + p["n"], AX[0]))
    j = e.T.fresh("j")
    t = z3.substitute(tot, (AX[0], j))
    nrm = sqrtR(e.T.sum(j, p["cols"], t * t))
    return tot / nrm, nrm


def vec_is(cx, name, r, p, t):
    if not isinstance(r, Arr):
        return cx.record(name, prove.Why("refuted", "got %r" % (r,)))
    cx.record(name, r.values().prove_eq(cx.e, AData([p["cols"]], "float32", t), name))


def lookup_contract(skind, meth):
    fns = [EMC + "." + meth, EMC + "._embedding", ND + ":NdArray.__getitem__" if skind == "NdArray" else QAC + ".__getitem__"]

    @contract(["C10", "C16"], "Embeddings.%s.%s" % (meth, skind), fns, max_paths=3000)
    def lk(cx):
        """the stored row / the normalised sum of the rows of the subword indices / the default; into out if given"""
        e = cx.e
        PN = cx.choose((False, False), (True, True)) if skind == "QuantizedArray" else (False, False)
        p = sym_emb(cx, kinds=("SimpleVocab", "FastTextVocab") if skind == "QuantizedArray" else None, skinds=(skind,), norms=True if meth == "embedding_with_norm" and cx.choose(True, False) else None, PN=PN)
        case = word_case(cx, p)
        k, i, word = case
        if meth == "__getitem__":
            oc = cx.outcome(lambda: None) if False else out_item(cx, p["e"], word)
            if k == "none":
                cx.record("no embedding: KeyError", None if oc[0] == "raise" and oc[1].cls.name == "KeyError" else prove.Why("refuted", "gave %s %r" % oc))
            elif oc[0] == "raise":
                cx.fail("a word with an embedding has one", "raises %r" % (oc[1],))
            else:
                vec_is(cx, "the row" if k == "known" else "the normalised sum", oc[1], p, spec_vec(cx, p, case)[0])
            return unchanged(cx, p)
        out = sym_arr(cx, "out", [p["cols"]]) if cx.choose(True, False) else None
        dv, dn = sym_arr(cx, "default", [p["cols"]]), cx.e.T.fresh("dnorm", R)
        wn = meth == "embedding_with_norm"
        default = cx.choose(None, (dv, dn) if wn else dv)
        d0, o0 = dv.data(), out.data() if out is not None else None
        kw = {} if out is None else {"out": out}
        if default is not None:
            kw["default"] = default
        kk, r = cx.outcome(e.getattr(p["e"], meth), word, **kw)
        if wn and p["norms"] is None:
            cx.record("without norms: TypeError", None if kk == "raise" and r.cls.name == "TypeError" else prove.Why("refuted", "gave %s %r" % (kk, r)))
            return unchanged(cx, p)
        if kk == "raise":
            cx.fail("does not raise", "raises %r" % (r,))
            return
        cx.record("does not raise", None)
        if k == "none":
            if default is None:
                cx.record("no embedding: None", None if r is None else prove.Why("refuted", "gave %r" % (r,)))
                if out is not None:
                    cx.record("no embedding: out is left alone", out.values().prove_eq(e, o0, "out"))
            elif out is None:
                cx.record("no embedding: the default", None if (r is default if not wn else r is default or isinstance(r, tuple) and len(r) == 2 and r[0] is dv and r[1] is dn) else prove.Why("refuted", "gave %r" % (r,)))
            else:
                x = r[0] if wn and isinstance(r, tuple) else r
                cx.record("no embedding: out is returned", None if x is out else prove.Why("refuted", "gave %r" % (r,)))
                cx.record("no embedding: out holds the default", out.values().prove_eq(e, d0, "out"))
                if wn:
                    cx.ensure("no embedding: the default norm", e.real_t(r[1]) == dn)
            cx.record("the default is left alone", dv.values().prove_eq(e, d0, "default"))
            return unchanged(cx, p)
        t, nrm = spec_vec(cx, p, case)
        if wn:
            if not (isinstance(r, tuple) and len(r) == 2):
                return cx.record("a pair", prove.Why("refuted", "gave %r" % (r,)))
            cx.record("a pair", None)
            r, rn = r
            cx.record("its norm" if k == "known" else "the norm of the sum", arrays.prove_term(e, e.real_t(rn), nrm, "norm") if rn is not None else prove.Why("refuted", "no norm"))
        vec_is(cx, "the row" if k == "known" else "the normalised sum", r, p, t)
        if out is not None:
            cx.record("out is returned", None if r is out else prove.Why("refuted", "returns %r" % (r,)))
        unchanged(cx, p)


def out_item(cx, v, s):
    try:
        return "return", cx.e.getitem(v, s)
    except PyRaise as x:
        return "raise", x.exc


for _s in ("NdArray", "QuantizedArray"):
    for _m in ("__getitem__", "embedding", "embedding_with_norm"):
        lookup_contract(_s, _m)


@contract(["C10", "C16"], "Embeddings.__iter__", [EMC + ".__iter__", ND + ":NdArray.__iter__"])
def em_iter(cx):
    """iteration gives every word in order with its row and, if there are norms, its norm"""
    e = cx.e
    p = sym_emb(cx, PN=(False, False), lookups=False)
    l = cx.spec("[x for x in e]", e=p["e"])
    n = cx.spec("len(l)", l=l)
    cx.ensure("as many as words", e.int_t(n) == p["n"])
    i = cx.int("i", 0)
    cx.requires(i < p["n"])
    x = cx.spec("l[i]", l=l, i=i)
    if not isinstance(x, tuple) or len(x) != (2 if p["norms"] is None else 3):
        return cx.record("a tuple", prove.Why("refuted", "got %r" % (x,)))
    cx.ensure_eq("the word", x[0], p["w"](i))
    vec_is(cx, "its row", x[1], p, p["row"](i, AX[0]))
    if p["norms"] is not None:
        cx.ensure("its norm", e.real_t(x[2]) == p["nd"].at(i))
    unchanged(cx, p)


@contract("C10", "Embeddings.shape", [EMC + ".dims", EMC + ".n_words", EMC + ".__contains__"])
def em_shape(cx):
    """dims, n_words, membership"""
    e = cx.e
    p = sym_emb(cx, PN=(False, False))
    cx.ensure("dims", e.int_t(e.getattr(p["e"], "dims")) == p["cols"])
    cx.ensure("n_words", e.int_t(e.getattr(p["e"], "n_words")) == p["n"])
    k, i, word = word_case(cx, p)
    cx.ensure("contains exactly the words", e.truth_t(cx.spec("w in e", w=word, e=p["e"])) == z3.BoolVal(k == "known"))
