"""Contracts of the Embeddings class: construction (C17), files (C01-C04)."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
import files
from arrays import AX, Arr, mk
from files import Opaque_, FileR, FileW, PathV, toks_len
from chunks import IO, u32, u64, sym_vocab
from vocab import KINDS
from storage import sym_nd, sym_quant, sym_norms, sym_meta, sym_arr, rejected
from fileio import Comp, use_comps, header, CLS

EM = "finalfusion.embeddings"
SUBV = ("FinalfusionBucketVocab", "FastTextVocab", "ExplicitVocab")


def sym_parts(cx, kinds=None, skinds=("NdArray", "QuantizedArray"), norms=None, meta=None, PN=(None, None)):
    """arbitrary consistent parts: dict(kind, skind, vocab, storage, norms, meta)"""
    e = cx.e
    kind = cx.choose(*(kinds or KINDS))
    f = sym_vocab(cx, kind)
    ub = e.int_t(e.getattr(f["v"], "upper_bound"))
    cx.requires(z3.And(ub < 2 ** 40, ub >= f["n"]))
    skind = cx.choose(*skinds)
    if skind == "NdArray":
        s, _, cols, d = sym_nd(cx, "=", rows=ub)
        info = dict(sd=d, cols=cols)
    else:
        q = sym_quant(cx, "=", n=ub, P=PN[0], N=PN[1])
        s = q["v"]
        info = dict(q=q, cols=q["ql"] * q["ds"])
    nm, nd = None, None
    if cx.choose(True, False) if norms is None else norms:
        nm, _, nd = sym_norms(cx, "=", n=f["n"])
    m = None
    if cx.choose(True, False) if meta is None else meta:
        m, _ = sym_meta(cx)
    info.update(kind=kind, skind=skind, vocab=f["v"], storage=s, norms=nm, nd=nd, meta=m, n=f["n"], w=f["w"], ub=ub, f=f)
    return info


def embeddings(cx, p):
    return cx.call(EM + ":Embeddings", p["storage"], p["vocab"], p["norms"], p["meta"])


def comps(cx, p):
    r = [Comp(cx, "Metadata", p["meta"])] if p["meta"] is not None else []
    r += [Comp(cx, p["kind"], p["vocab"]), Comp(cx, p["skind"], p["storage"])]
    if p["norms"] is not None:
        r.append(Comp(cx, "Norms", p["norms"]))
    use_comps(cx, r)
    return r


def whole(cs):
    """the file: header with the identifiers in file order, then exactly those chunks"""
    return header(len(cs), [u32(c.id) for c in cs]) + tuple(t for c in cs for t in c.toks())


@contract(["C01", "C02", "C16"], "Embeddings.write", [EM + ":Embeddings.write", EM + ":Embeddings.chunks"])
def emb_write(cx):
    """writes the header listing the chunks in file order, then exactly these chunks: metadata, vocabulary, storage, norms"""
    p = sym_parts(cx, PN=(False, False))
    e = embeddings(cx, p)
    cs = comps(cx, p)
    path = PathV(cx.e)
    snap = cx.heap()
    cx.method(e, "write", path)
    cx.frame("writing changes nothing", snap)
    cx.record("file is header and chunks", files.prove_bytes(cx.e, path.current(cx.e) or (), whole(cs), "file"))


def same_parts(cx, r, p, pre=""):
    e = cx.e
    if not isinstance(r, Obj) or r.cls.name != "Embeddings":
        cx.record(pre + "is embeddings", prove.Why("refuted", "got %r" % (r,)))
        return
    cx.record(pre + "is embeddings", None)
    for a, v in (("vocab", p["vocab"]), ("storage", p["storage"]), ("norms", p["norms"]), ("metadata", p["meta"])):
        x = e.getattr(r, a)
        cx.record(pre + a + " is kept", None if x is v else prove.Why("refuted", "%s: %r versus %r" % (a, x, v)))


@contract(["C01", "C02", "C04"], "load_finalfusion", [EM + ":load_finalfusion", EM + ":Embeddings.__init__", EM + ":Embeddings._check_requirements"])
def emb_load(cx):
    """loading (memory-mapped or not) a written file gives embeddings with the same components"""
    p = sym_parts(cx, PN=(False, False))
    cs = comps(cx, p)
    r = cx.call(EM + ":load_finalfusion", PathV(cx.e, whole(cs)), *cx.choose([], [True]))
    same_parts(cx, r, p)


def emb_cut(cx, skind, norms):
    p = sym_parts(cx, skinds=(skind,), norms=norms, PN=(False, False))
    cs = comps(cx, p)
    w = whole(cs)
    cut = cx.int("cut", 0)
    cx.requires(cut < toks_len(cx.e, w) - cs[-1].n + cs[-1].m)
    rejected(cx, "a cut file is rejected", cx.outcome(EM + ":load_finalfusion", PathV(cx.e, w, cut), cx.choose(False, True)))


for _s in ("NdArray", "QuantizedArray"):
    for _n in (True, False):
        def _f(cx, s=_s, n=_n):
            """a file that lacks its last non-padding byte (cut anywhere) is rejected"""
            emb_cut(cx, s, n)
        contract("C03", "load_finalfusion.cut.%s%s" % (_s, ".norms" if _n else ""), [EM + ":load_finalfusion"], max_paths=3000)(_f)


@contract("C03", "load_finalfusion.order", [EM + ":load_finalfusion"], max_paths=3000)
def emb_order(cx):
    """a file with a chunk of another kind (or of no known kind) at any place is rejected"""
    p = sym_parts(cx, kinds=("SimpleVocab", "ExplicitVocab"), PN=(False, False))
    cs = comps(cx, p)
    i = cx.choose(*range(len(cs)))
    ident = cx.int("other", 0, 2 ** 32 - 1)
    ok = {"Metadata": (5,), "Norms": (6,)}.get(cs[i].kind) or ((2, 4) if cs[i].kind == p["skind"] else (1, 3, 7, 8))
    if i == 0:
        ok = (5, 1, 3, 7, 8)
    cx.requires(z3.And(*[ident != o for o in ok]))
    toks = header(len(cs), [u32(c.id) for c in cs])
    for j, c in enumerate(cs):
        toks += c.toks() if j != i else (u32(ident), u64(c.n), E(Opaque_("other", None, c.n)))
    rejected(cx, "a chunk of another kind is rejected", cx.outcome(EM + ":load_finalfusion", PathV(cx.e, toks), cx.choose(False, True)))
