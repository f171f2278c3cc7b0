"""C11, C12: similarity and analogy queries."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
from arrays import AX, AData, Arr, mk, sqrtR
from storage import sym_arr, ND
from quant import QAC
from lookup import sym_emb, unchanged, word_case, spec_vec, EMC


def sym_set(cx, hint="skip"):
    """an arbitrary finite set of strings: (set, has)"""
    e = cx.e
    has = cx.func("has_" + hint, Str, B)
    card = cx.int("card_" + hint, 0, 2 ** 40)
    f = DFun(lambda k: has(e.str_t(k)), lambda k: None, card, None, str(has))
    return St(e, DC(f, ())), has


def sims(cx, p, i, vec):
    """dot product of row i with the vector (term over AX[0])"""
    j = cx.e.T.fresh("j")
    return cx.e.T.sum(j, p["cols"], p["row"](i, j) * z3.substitute(vec, (AX[0], j)))


def top_k(cx, r, p, vec, k, elig, part=None):
    """r is the list of the (at most) k most similar eligible words, descending"""
    e, n, w = cx.e, p["n"], p["w"]
    if not isinstance(r, Lst):
        return cx.record("a list of results", prove.Why("refuted", "got %r" % (r,)))
    cx.record("a list of results", None)
    m = e.int_t(e.length(r))
    cx.ensure("at most k results", z3.And(m >= 0, m <= k))

    def item(t):
        x = e.getitem(r, t)
        return e.str_t(e.getattr(x, "word")), e.real_t(e.getattr(x, "similarity"))
    what = part or cx.choose("item", "order", "best")
    if z3.is_int_value(z3.simplify(m)) and z3.simplify(m).as_long() == 0:
        if what == "best":
            i = cx.int("i", 0)
            cx.requires(z3.And(i < n, elig(i)))
            cx.ensure("eligible words are left out only if there are k results", m == k)
    elif what == "item":
        t = cx.int("t", 0)
        cx.requires(t < m)
        word, sim = item(t)
        i = e.getattr(p["v"], "word_index")
        i = cx.spec("d.get(x)", d=i, x=word)
        if i is None:
            return cx.fail("results are words of the vocabulary", "a result is no word")
        i = e.int_t(i)
        cx.ensure("results are words of the vocabulary", z3.And(i >= 0, i < n, w(i) == word))
        cx.ensure("a skipped word is never returned", elig(i))
        cx.record("the similarity is the dot product", arrays.prove_term(e, sim, sims(cx, p, i, vec), "similarity"))
    elif what == "order":
        t, u = cx.int("t", 0), cx.int("u", 0)
        cx.requires(z3.And(t < u, u < m))
        (w1, s1), (w2, s2) = item(t), item(u)
        cx.ensure("descending order", s1 >= s2)
        cx.ensure("every word once", w1 != w2)
    else:
        i, t, q = cx.int("i", 0), cx.int("t", 0), z3.Const("q_t", I)
        cx.requires(z3.And(i < n, elig(i)))
        ts, hint = [i], cx.func("hint", I, B)      # instantiation hints: the places of the word in the orderings
        for inv, f in e.perms:
            ts += [inv(x) for x in ts]
            for x in ts:
                cx.requires(hint(f(x)))
        k0 = e.T.fresh("k")
        with prove.Scope(e, k0 >= 0, k0 < m):
            wt, _ = item(k0)
        wq = z3.substitute(wt, (k0, q))
        cx.requires(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), wq != w(i)), patterns=e.patterns(wq, q)) if e.patterns(wq, q) else z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), wq != w(i))))
        cx.ensure("eligible words are left out only if there are k results", m == k)
        cx.requires(t < m)
        with prove.Scope(e, k0 >= 0, k0 < m):
            wt, st = item(k0)
        if z3.is_app(wt) and wt.decl().eq(w):
            # the code's similarity of word i (a lemma: proved, then used)
            si, sp = z3.substitute(st, (wt.arg(0), i)), sims(cx, p, i, vec)
            if not si.eq(sp) and not mentions(si, [k0]) and arrays.prove_term(e, si, sp, "similarity") is None:
                cx.requires(si == sp)
        cx.ensure("eligible words left out are not more similar", sims(cx, p, i, vec) <= item(t)[1])


def sim_contract(skind, kinds, given, part):
    @contract(["C11", "C16"] if part == "order" else "C11", "Embeddings.embedding_similarity.%s.%s.%s" % (skind, "skip" if given else "default", part), [EMC + ".embedding_similarity", EMC + "._similarity"], max_paths=1500)
    def es(cx):
        """the true top-k by dot product among the words that are not skipped, for every query vector, k and skip set"""
        PN = cx.choose((False, False), (True, True)) if skind == "QuantizedArray" else (False, False)
        p = sym_emb(cx, kinds=kinds, skinds=(skind,), PN=PN, lookups=False, norms=False)
        k = cx.int("k", 0, 2 ** 40)
        q = sym_arr(cx, "query", [p["cols"]])
        q0 = q.data()
        if given:
            sk, has = sym_set(cx)
            args, elig = [k, sk], lambda i: z3.Not(has(p["w"](i)))
        else:
            args, elig = [k], lambda i: z3.BoolVal(True)
        r = cx.method(p["e"], "embedding_similarity", q, *args)
        top_k(cx, r, p, q0.body(), k, elig, part)
        cx.record("the query is unchanged", q.values().prove_eq(cx.e, q0, "query"))
        unchanged(cx, p)


for _g in (True, False):
    for _p in ("item", "order", "best"):
        sim_contract("NdArray", None, _g, _p)
        sim_contract("QuantizedArray", ("SimpleVocab", "FastTextVocab"), _g, _p)


def use_lookup(cx, p):
    """lookups seen through their C10 contracts: (has(word), vec(word, j)); the same word always gives the same vector"""
    e = cx.e
    has, vec = cx.func("hasvec", Str, B), cx.func("vec", Str, I, R)
    nrm = cx.func("nrm", Str, R)

    given = []

    def arr(s):
        a = mk(e, [p["cols"]], vec(s, AX[0]), "float32")
        given.append((a, a.values()))
        return a

    def handed_out():
        """the vector of a known word may be a view of the matrix: whoever asks for it must not write to it"""
        for a, v in given:
            cx.record("vectors from lookups are not written to", a.values().prove_eq(e, v, "vector"))
    p["handed out"] = handed_out

    def own(v):
        return v["self"] is p["e"] and e.is_str(v["word"] if "word" in v else v["item"])

    def emb(eng, v):
        if not own(v) or v.get("out") is not None:
            return NotImplemented
        s = e.str_t(v["word"])
        return arr(s) if e.branch(has(s)) else v.get("default")

    def wn(eng, v):
        if not own(v) or v.get("out") is not None or p["norms"] is None:
            return NotImplemented
        s = e.str_t(v["word"])
        return (arr(s), nrm(s)) if e.branch(has(s)) else v.get("default")

    def item(eng, v):
        if not own(v):
            return NotImplemented
        s = e.str_t(v["item"])
        if e.branch(has(s)):
            return arr(s)
        e.raise_("KeyError", "no embedding")
    q = p["e"].cls.lookup("embedding")[0].qual.rsplit(".", 1)[0]
    e.summaries[q + ".embedding"] = emb
    e.summaries[q + ".embedding_with_norm"] = wn
    e.summaries[q + ".__getitem__"] = item
    return has, lambda s: vec(s, AX[0])


@contract(["C11", "C16"], "Embeddings.word_similarity", [EMC + ".word_similarity", EMC + "._similarity"], max_paths=1500)
def word_sim(cx):
    """the top-k for the embedding of the word, never the word itself; None if it has no embedding"""
    e = cx.e
    p = sym_emb(cx, kinds=("SimpleVocab", "FastTextVocab"), skinds=("NdArray",), PN=(False, False), lookups=False, norms=False)
    k = cx.int("k", 0, 2 ** 40)
    has, vec = use_lookup(cx, p)
    s = cx.str("q")
    r = cx.method(p["e"], "word_similarity", s, k)
    if not cx.case(has(s)):
        return cx.record("no embedding: None", None if r is None else prove.Why("refuted", "gave %r" % (r,)))
    top_k(cx, r, p, vec(s), k, lambda i: p["w"](i) != s)
    unchanged(cx, p)
    p["handed out"]()


def analogy_contract(given, part):
    def c(cx):
        analogy_body(cx, given, part)
    c.__doc__ = "with a given skip set" if given else "the three query words are skipped"
    contract(["C12", "C16"] if part == "order" else "C12", "Embeddings.analogy.%s.%s" % ("skip" if given else "default", part), [EMC + ".analogy", EMC + "._similarity"], max_paths=3000)(c)


for _p in ("best", "item", "order"):
    analogy_contract(False, _p)
    analogy_contract(True, _p)


def analogy_body(cx, given, part):
    """the top-k for the normalised c + (b - a) among the words not skipped; None if one has no embedding"""
    e = cx.e
    p = sym_emb(cx, kinds=("SimpleVocab",), skinds=("NdArray",), PN=(False, False), lookups=False, norms=False)
    k = cx.int("k", 0, 2 ** 40)
    has, vec = use_lookup(cx, p)
    a, b, c = cx.str("a"), cx.str("b"), cx.str("c")
    if given:
        sk, ex = sym_set(cx)
        kw, elig = {"skip": sk}, lambda i: z3.Not(ex(p["w"](i)))
    else:
        kw, elig = {}, lambda i: z3.And(p["w"](i) != a, p["w"](i) != b, p["w"](i) != c)
    r = cx.method(p["e"], "analogy", a, b, c, k, **kw)
    if not cx.case(z3.And(has(a), has(b), has(c))):
        return cx.record("no embedding: None", None if r is None else prove.Why("refuted", "gave %r" % (r,)))
    d = vec(c) + (vec(b) - vec(a))
    j = e.T.fresh("j")
    dj = z3.substitute(d, (AX[0], j))
    top_k(cx, r, p, d / sqrtR(e.T.sum(j, p["cols"], dj * dj)), k, elig, part)
    unchanged(cx, p)
    p["handed out"]()


SA = "finalfusion.scripts.analogy"


@contract("C12", "scripts.analogy.get_skips", [SA + ":get_skips"])
def get_skips(cx):
    """exactly the query words whose part is not among the included ones are skipped"""
    e = cx.e
    a, b, c = cx.str("a"), cx.str("b"), cx.str("c")
    inc = {x: cx.choose(True, False) for x in "abc"}
    lst = [x for x in "abc" if inc[x]]
    if len(lst) > 1 and cx.choose(True, False):
        lst = lst[::-1] + lst[:1]
    r = cx.call(SA + ":get_skips", a, b, c, Lst(e, tuple(E(x) for x in lst)))
    s = cx.str("s")
    want = z3.Or(*[s == q for q, x in ((a, "a"), (b, "b"), (c, "c")) if not inc[x]]) if len([x for x in inc if not inc[x]]) else z3.BoolVal(False)
    cx.ensure("skips exactly the parts not included", e.truth_t(cx.spec("s in r", s=s, r=r)) == want)
