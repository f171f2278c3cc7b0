"""C09: converting bucket embeddings to explicit n-grams."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
from arrays import AX, AData, Arr
from vocab import KINDS, CLS, WV, XI, use_ngrams, words_in, sym_index_dict
from storage import ND
from lookup import sym_emb, unchanged, vec_is, EMC


def use_to_explicit(cx, p, ln, el, bucket):
    """to_explicit seen through its contract (C08)"""
    e = cx.e
    m, g = cx.int("n_ngrams", 0, 2 ** 40), cx.func("g", I, Str)
    d, has, val = sym_index_dict(cx)
    pos, wit, bound = cx.func("gpos", Str, I), cx.func("gwit", I, Str), cx.int("xbound", 0, 2 ** 40)
    i, j, s, t = z3.Const("q_i", I), z3.Const("q_j", I), z3.Const("q_s", Str), z3.Const("q_t", Str)
    n, w = p["n"], p["w"]
    A = lambda vs, f, *pats: cx.requires(z3.ForAll(vs, f, patterns=list(pats)))
    A([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(has(g(i)), pos(g(i)) == i)), g(i))
    A([s], z3.Implies(has(s), z3.And(pos(s) >= 0, pos(s) < m, g(pos(s)) == s)), has(s))
    A([s], z3.Implies(has(s), z3.And(val(s) >= 0, val(s) < bound)), val(s))
    A([s, t], z3.Implies(z3.And(has(s), has(t)), (val(s) == val(t)) == (bucket(s) == bucket(t))), z3.MultiPattern(val(s), val(t)))
    A([i], z3.Implies(z3.And(i >= 0, i < bound), z3.And(has(wit(i)), val(wit(i)) == i)), wit(i))
    A([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < ln(w(i))), has(el(w(i), j))), el(w(i), j))
    c = cx.fn(XI + ":ExplicitIndexer")
    k = e.T.fresh("k")
    state = {}

    def sm(e2, v):
        if v["self"] is not p["v"] and v.get("vocab") is not p["v"]:
            return NotImplemented
        mn, mx = (e.int_t(e.getattr(p["ix"], a)) for a in ("min_n", "max_n"))
        ng = cx.list(m, g)
        ix = Obj(e, c, {"_min_n": CV("uint32_t", mn), "_max_n": CV("uint32_t", mx), "_ngrams": ng, "_ngram_index": d, "_bound": CV("Py_ssize_t", bound)})
        state["x"] = cx.call(WV + ":ExplicitVocab", cx.list(n, w), ix)
        return state["x"]
    for kk in ("FinalfusionBucketVocab", "FastTextVocab"):
        e.summaries[WV + "." + kk + ".to_explicit"] = sm
    cx.con_used = "to_explicit"
    return dict(m=m, g=g, has=has, val=val, bound=bound, state=state, wit=wit)


def conv_contract(kind, skind):
    @contract(["C09", "C16"], "Embeddings.bucket_to_explicit.%s.%s" % (kind, skind), [EMC + ".bucket_to_explicit"])
    def conv(cx):
        """rows of words and of the n-grams of words are kept, unused buckets dropped, norms kept, the original unchanged"""
        e = cx.e
        PN = cx.choose((False, False), (True, True)) if skind == "QuantizedArray" else (False, False)
        p = sym_emb(cx, kinds=(kind,), skinds=(skind,), PN=PN, lookups=False)
        bucket = cx.func("BUCKET", Str, I)
        s = z3.Const("q_s", Str)
        cx.requires(z3.ForAll([s], z3.And(bucket(s) >= 0, bucket(s) < p["bound"]), patterns=[bucket(s)]))
        cx.ix = p["ix"]
        ln, el = use_ngrams(cx, bucket)
        x = use_to_explicit(cx, p, ln, el, bucket)
        r = cx.method(p["e"], "bucket_to_explicit")
        if not isinstance(r, Obj) or r.cls.name != "Embeddings":
            return cx.record("result is embeddings", prove.Why("refuted", "got %r" % (r,)))
        v, st = e.getattr(r, "vocab"), e.getattr(r, "storage")
        cx.record("the vocabulary is the explicit one", None if v is x["state"].get("x") else prove.Why("refuted", "vocabulary is %r" % (v,)))
        cx.record("storage is dense", None if isinstance(st, Arr) and st.cls_.name == "NdArray" else prove.Why("refuted", "storage is %r" % (st,)))
        n = p["n"]
        d = st.values()
        cx.ensure("rows of unused buckets are dropped", z3.And(d.shape[0] == n + x["bound"], d.shape[1] == p["cols"]))
        nm = e.getattr(r, "norms")
        if p["norms"] is None:
            cx.record("norms are kept", None if nm is None else prove.Why("refuted", "norms appear"))
        else:
            cx.record("norms are kept", nm.values().prove_eq(e, p["nd"], "norms") if isinstance(nm, Arr) else prove.Why("refuted", "norms are lost"))
        j = cx.int("col", 0)
        cx.requires(j < p["cols"])
        what = cx.choose("word", "ngram", "embedding")
        if what == "word":
            i = cx.int("i", 0)
            cx.requires(i < n)
            cx.record("the row of every word is kept", arrays.prove_term(e, d.at(i, j), p["row"](i, j), "row"))
        elif what == "ngram":
            g = cx.str("ngram")
            cx.requires(x["has"](g))
            cx.record("the row of every n-gram is kept", arrays.prove_term(e, d.at(n + x["val"](g), j), p["row"](n + bucket(g), j), "row"))
        else:
            # any string: before and after, with its n-grams (as given by the C06 contracts) all known
            q = cx.str("q")
            jj = z3.Const("q_j", I)
            cx.requires(z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < ln(q)), x["has"](el(q, jj))), patterns=[el(q, jj)]))

            def sw(e2, v2):
                if v2["bracket"] is not True or v2["with_ngrams"] is not False or not e.is_str(v2["word"]) or not e.entails(e.str_t(v2["word"]) == q):
                    return NotImplemented
                off = e.int_t(v2["offset"])
                return cx.list(ln(q), lambda k: x["val"](el(q, k)) + off)
            e.summaries[XI + ".ExplicitIndexer.subword_indices"] = sw
            a, b = cx.method(p["e"], "embedding", q), cx.method(r, "embedding", q)
            name = "every string of known n-grams keeps its embedding"
            if a is None or b is None:
                cx.record(name, None if a is b else cx.unreachable("%r before, %r after" % (a, b)))
            else:
                cx.record(name, b.values().prove_eq(e, a.values(), name))
        unchanged(cx, p)


for _k in ("FinalfusionBucketVocab", "FastTextVocab"):
    for _s in ("NdArray", "QuantizedArray"):
        conv_contract(_k, _s)


@contract("C09", "Embeddings.bucket_to_explicit.type", [EMC + ".bucket_to_explicit"])
def conv_type(cx):
    """other vocabularies are refused"""
    p = sym_emb(cx, kinds=("SimpleVocab", "ExplicitVocab"), PN=(False, False))
    k, r = cx.outcome(cx.e.getattr(p["e"], "bucket_to_explicit"))
    cx.record("only bucket vocabularies are converted", None if k == "raise" else prove.Why("refuted", "returned %r" % (r,)))
    unchanged(cx, p)
