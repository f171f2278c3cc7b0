"""Contracts of the vocabularies and of the explicit indexer (C05, C08)."""
from contract import contract
from terms import *
from values import *
import prove
from subword import HI, XI, SPEC_NGRAMS, bracketed, sw_spec, FIFU, FTH, use_fifu, use_ft, sym_index_dict

VV = "finalfusion.vocab.vocab"
SV = "finalfusion.vocab.simple_vocab"
WV = "finalfusion.vocab.subword"


def words_in(cx, name="word"):
    """arbitrary list of strings: (list, n, word(i))"""
    n = cx.int("n_" + name, 0, 2 ** 62)
    w = cx.func(name, I, Str)
    return cx.list(n, lambda i: w(i)), n, w


def distinct(cx, n, w, total=False):
    """witness form: pos(w(i)) == i for every i (total: the unspecified values outside [0, n) are distinct, too)"""
    pos = cx.func("pos", Str, I)
    i = z3.Const("q_i", I)
    if total:
        cx.requires(z3.ForAll([i], pos(w(i)) == i, patterns=[w(i)]))
        return pos
    cx.requires(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), pos(w(i)) == i), patterns=[w(i)]))
    return pos


@contract("C05", "_validate_items_and_create_index", [VV + ":_validate_items_and_create_index"])
def validate(cx):
    """returns iff the items are distinct, and then maps exactly the n-th item to n"""
    ws, n, w = words_in(cx)
    k, v = cx.outcome(VV + ":_validate_items_and_create_index", ws)
    if k == "return":
        i, j = cx.int("i", 0), cx.int("j", 0)
        cx.requires(z3.And(i < n, j < n, i != j))
        cx.ensure("accepted only distinct items", w(i) != w(j))
        q = cx.str("q")
        cx.ensure_eq("maps the n-th item to n", cx.e.getitem(v, w(i)), i)
        cx.ensure("has every item", cx.spec("x in d", x=w(i), d=v))
        cx.ensure_eq("size", cx.spec("len(d)", d=v), n)
        g = cx.spec("d.get(q)", d=v, q=q)
        if g is not None:
            cx.ensure("maps only the items", z3.And(cx.e.int_t(g) >= 0, cx.e.int_t(g) < n, w(cx.e.int_t(g)) == q))


@contract("C05", "_validate_items_and_create_index.distinct", [VV + ":_validate_items_and_create_index"])
def validate_ok(cx):
    """distinct items are accepted"""
    ws, n, w = words_in(cx)
    distinct(cx, n, w)
    k, v = cx.outcome(VV + ":_validate_items_and_create_index", ws)
    if k == "raise":
        cx.fail("accepts distinct items", "raises %r for distinct items" % (v,))
    else:
        cx.record("accepts distinct items", None)


def use_validate(cx):
    """callers see only the contract of _validate_items_and_create_index"""
    def sm(e, v):
        its = e.items_of(v["items"])
        if len(its) != 1 or not isinstance(its[0], For) or len(its[0].items) != 1 or not isinstance(its[0].items[0], E):
            return NotImplemented
        f = its[0]
        n = f.n

        def w(i):
            return e.str_t(e.subst_val(f.items[0].v, [(f.k, i)]))
        e.T.cnt += 1
        nm = "ix!%d" % e.T.cnt
        has, pos = z3.Function("has_" + nm, Str, B), z3.Function("val_" + nm, Str, I)
        i, s = z3.Const("q_i", I), z3.Const("q_s", Str)
        a, b = e.T.fresh("dup"), e.T.fresh("dup")
        if e.nd():
            e.assume(z3.And(a >= 0, a < b, b < n, w(a) == w(b)))
            e.raise_("AssertionError", "duplicate items")
        x, y = e.T.fresh("x"), e.T.fresh("y")
        with prove.Scope(e, x < y):
            inj = e.entails(w(x) != w(y))
        if inj:    # w is injective on all integers: the (unspecified) index of absent strings can be chosen alike
            e.assume(z3.ForAll([i], z3.And(pos(w(i)) == i, has(w(i)) == z3.And(i >= 0, i < n)), patterns=[w(i)]))
        else:
            e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(has(w(i)), pos(w(i)) == i)), patterns=[w(i)]))
        e.assume(z3.ForAll([s], z3.Implies(has(s), z3.And(pos(s) >= 0, pos(s) < n, w(pos(s)) == s)), patterns=[has(s), pos(s)]))
        return Dct(e, DC(DFun(lambda k: has(e.str_t(k)), lambda k: pos(e.str_t(k)), n, None, nm), ()))
    cx.e.summaries[VV + "._validate_items_and_create_index"] = sm


# ------------------------------------------------------------------ indexers seen through their contracts
CLS = {"FinalfusionHashIndexer": HI, "FastTextIndexer": HI, "ExplicitIndexer": XI}


def use_sw_spec(cx):
    """subword_indices seen through its C06 contract: the list of indices of the n-grams"""
    use_fifu(cx)
    use_ft(cx)

    def mk(cls, skip):
        def sm(e, v):
            s = v["self"]
            br, wn = v["bracket"], v["with_ngrams"]
            if not isinstance(br, bool) or not isinstance(wn, bool) or not e.is_str(v["word"]):
                return NotImplemented
            mn, mx = e.int_t(e.getattr(s, "min_n")), e.int_t(e.getattr(s, "max_n"))
            return sw_spec(cx, s, v["word"], mn, mx, e.int_t(v["offset"]), br, wn, skip=skip)
        cx.e.summaries[cls] = sm
    for c, m in CLS.items():
        mk(m + "." + c + ".subword_indices", c == "ExplicitIndexer")


def use_sw_abstract(cx, bound):
    """subword_indices seen through a weaker contract (subword_indices.bounds below): a list that depends on
    the word only, every element (minus the offset) in [0, upper_bound)"""
    ln, el = cx.func("SWN", Str, I), cx.func("SWE", Str, I, I)
    s, i = z3.Const("q_s", Str), z3.Const("q_i", I)
    cx.requires(z3.ForAll([s], ln(s) >= 0, patterns=[ln(s)]))
    cx.requires(z3.ForAll([s, i], z3.And(el(s, i) >= 0, el(s, i) < bound), patterns=[el(s, i)]))

    def sm(e, v):
        if v["bracket"] is not True or v["with_ngrams"] is not False or not e.is_str(v["word"]):
            return NotImplemented
        off, w = e.int_t(v["offset"]), e.str_t(v["word"])
        return cx.list(ln(w), lambda k: el(w, k) + off)
    for c, m in CLS.items():
        cx.e.summaries[m + "." + c + ".subword_indices"] = sm
    return ln, el


def sw_bounds(kind, ixf):
    @contract("C05", kind + ".subword_indices.bounds", [CLS[kind] + ":" + kind + ".subword_indices"])
    def bounds(cx):
        """every subword index lies in [offset, offset + upper_bound)"""
        ix, bound = ixf(cx)
        cx.requires(bound <= 2 ** 63)
        w = cx.str("word")
        off = cx.int("offset", 0, 2 ** 62)
        use_sw_spec(cx)
        r = cx.method(ix, "subword_indices", w, offset=off)
        cx.ensure("upper bound", cx.e.int_t(cx.e.getattr(ix, "upper_bound")) == bound)
        cx.ensure("indices lie in [offset, offset + upper bound)", cx.spec("all(off <= x < off + ub for x in l)", l=r, off=off, ub=bound))


def ngram_range(cx):
    mn, mx = cx.int("min_n", 1), cx.int("max_n", None, 2 ** 32 - 1)
    cx.requires(mx >= mn)
    return mn, mx


def fifu_ix(cx):
    mn, mx = ngram_range(cx)
    exp = cx.int("exp", 1, 63)
    ix = cx.call(HI + ":FinalfusionHashIndexer", exp, mn, mx)
    return ix, cx.e.int_t(cx.e.getattr(ix, "upper_bound"))


def ft_ix(cx):
    mn, mx = ngram_range(cx)
    nb = cx.int("n_buckets", 1, 2 ** 32 - 1)
    return cx.call(HI + ":FastTextIndexer", nb, mn, mx), nb


def ex_ix(cx):
    """an ExplicitIndexer satisfying its class invariant (established by the contracts ExplicitIndexer.__init__)"""
    mn, mx = ngram_range(cx)
    c = cx.fn(XI + ":ExplicitIndexer")
    d, has, val = sym_index_dict(cx)
    ng, n, g = words_in(cx, "ngram")
    bound = cx.int("bound", 0)
    s = z3.Const("q_s", Str)
    cx.requires(z3.ForAll([s], z3.Implies(has(s), z3.And(val(s) >= 0, val(s) < bound)), patterns=[val(s)]))
    return Obj(cx.e, c, {"_min_n": CV("uint32_t", mn), "_max_n": CV("uint32_t", mx), "_ngrams": ng, "_ngram_index": d, "_bound": CV("Py_ssize_t", bound)}), bound


KINDS = {
    "SimpleVocab": (SV, None),
    "FinalfusionBucketVocab": (WV, fifu_ix),
    "FastTextVocab": (WV, ft_ix),
    "ExplicitVocab": (WV, ex_ix),
}


def vocab_contract(kind):
    mod, mk = KINDS[kind]
    q = mod + ":" + kind
    sub = WV + ":SubwordVocab." if mk else q + "."

    def build(cx, ok=True):
        use_validate(cx)
        ws, n, w = words_in(cx)
        # a vocabulary fits in memory; its indices fit in 64 bits
        cx.requires(n < 2 ** 62)
        ix, bound = mk(cx) if mk else (None, 0)
        if mk:
            cx.requires(bound <= 2 ** 63)
            cx.sw = use_sw_abstract(cx, bound)
        args = [ws] if ix is None else [ws, ix]
        return ws, n, w, ix, bound, args

    @contract("C05", kind + ".words", [q + ".__init__", VV + ":Vocab.__len__", VV + ":Vocab.__iter__", VV + ":Vocab.__contains__", q + ".words", q + ".word_index"])
    def words(cx):
        """constructor: distinct words only; length, iteration, membership"""
        ws, n, w, ix, bound, args = build(cx)
        k, v = cx.outcome(q, *args)
        if k == "raise":
            distinct(cx, n, w)
            cx.fail("accepts distinct words", "raises %r" % (v,))
            return
        if cx.choose(False, True):
            s = cx.str("q")
            ii = z3.Const("q_i", I)
            cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < n), w(ii) != s), patterns=[w(ii)]))
            cx.ensure("does not contain other words (nor does the empty vocabulary)", z3.Not(cx.e.truth_t(cx.spec("x in v", x=s, v=v))))
            return
        i, j = cx.int("i", 0), cx.int("j", 0)
        cx.requires(z3.And(i < n, j < n, i != j))
        cx.ensure("only distinct words", w(i) != w(j))
        cx.ensure_eq("length", cx.spec("len(v)", v=v), n)
        cx.ensure_eq("iterates over its words in order", cx.spec("list(v)", v=v), ws)
        cx.ensure_eq("words", cx.e.getattr(v, "words"), ws)
        cx.ensure("contains its words", cx.e.truth_t(cx.spec("x in v", x=w(i), v=v)))
        s = cx.str("q")
        c = cx.e.truth_t(cx.spec("x in v", x=s, v=v))
        if cx.case(c):
            p = cx.e.T.fresh("p")
            ii = z3.Const("q_i", I)
            cx.ensure("contains only its words", z3.Not(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < n), w(ii) != s), patterns=[w(ii)])))

    @contract("C05", kind + ".lookup", [q + ".__init__", sub + "idx", (sub if mk else VV + ":Vocab.") + "__getitem__", sub + "upper_bound"] + ([sub + "subword_indices"] if mk else []))
    def lookup(cx):
        """known words give their position; unknown ones subword indices within bounds, the default or a KeyError"""
        ws, n, w, ix, bound, args = build(cx)
        k, v = cx.outcome(q, *args)
        if k == "raise":
            return
        ub = cx.e.int_t(cx.e.getattr(v, "upper_bound"))
        cx.ensure("upper bound", ub == n + bound)
        default = cx.choose(None, 7, "list")
        if default == "list":
            default = cx.list(cx.int("dn", 0), lambda i: i)
        if cx.choose(True, False):
            i = cx.int("i", 0)
            cx.requires(i < n)
            cx.ensure_eq("idx of the n-th word is n", cx.method(v, "idx", w(i), default), i)
            cx.ensure_eq("[] of the n-th word is n", cx.e.getitem(v, w(i)), i)
            cx.ensure("position lies below the upper bound", z3.And(i >= 0, i < ub))
            return
        s = cx.str("q")
        ii = z3.Const("q_i", I)
        cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < n), w(ii) != s), patterns=[w(ii)]))
        r = cx.method(v, "idx", s, default)
        if not mk:
            cx.ensure("unknown word gives the default", r is default)
            kk, x = cx.outcome(lambda: None) if False else out_getitem(cx, v, s)
            cx.record("unknown word raises KeyError", None if kk == "raise" and x.cls.name == "KeyError" else prove.Why("refuted", "v[unknown] gave %s %r" % (kk, x)))
            return
        ln, el = cx.sw
        cnt = ln(s)
        spec = cx.list(cnt, lambda k: el(s, k) + n)
        if cx.case(cnt == 0):
            cx.ensure("no n-grams: the default", r is default)
            kk, x = out_getitem(cx, v, s)
            cx.record("no n-grams: KeyError", None if kk == "raise" and x.cls.name == "KeyError" else prove.Why("refuted", "v[unknown] gave %s %r" % (kk, x)))
        else:
            cx.ensure_eq("unknown word gives the indices of its n-grams", r, spec)
            cx.ensure_eq("[] of an unknown word", cx.e.getitem(v, s), spec)
            cx.ensure("subword indices lie in [n_words, upper bound)", cx.spec("all(n <= x < ub for x in l)", l=r, n=n, ub=ub))


def vocab_subwords(kind):
    mod, mk = KINDS[kind]
    q = mod + ":" + kind
    sub = WV + ":SubwordVocab."

    @contract("C06", kind + ".subwords", [sub + "subwords", sub + "subword_indices", sub + "min_n", sub + "max_n", q + ".subword_indexer", "finalfusion.subword.ngrams:ngrams"])
    def subwords(cx):
        """subwords(s) == the n-grams of s in the vocabulary's range; subword_indices(s) == their indices after the words"""
        use_validate(cx)
        ws, n, w = words_in(cx)
        cx.requires(n < 2 ** 62)
        ix, bound = mk(cx)
        cx.requires(bound <= 2 ** 63)
        k, v = cx.outcome(q, ws, ix)
        if k == "raise":
            return
        use_sw_spec(cx)
        e = cx.e
        mn, mx = e.int_t(e.getattr(ix, "min_n")), e.int_t(e.getattr(ix, "max_n"))
        cx.ensure("n-gram range is the indexer's", z3.And(e.int_t(e.getattr(v, "min_n")) == mn, e.int_t(e.getattr(v, "max_n")) == mx))
        s = cx.str("q")
        br = cx.choose(None, True, False)
        b = bracketed(cx, s, br is not False)
        if cx.choose(True, False):
            r = cx.method(v, "subwords", s) if br is None else cx.method(v, "subwords", s, br)
            cx.ensure_eq("subwords are exactly the n-grams in order", r, cx.spec(SPEC_NGRAMS, b=b, mn=mn, mx=mx))
            return
        wn = cx.choose(None, False, True)
        kw = {}
        if br is not None:
            kw["bracket"] = br
        if wn is not None:
            kw["with_ngrams"] = wn
        r = cx.method(v, "subword_indices", s, **kw)
        cx.ensure_eq("subword indices are the n-gram indices after the words", r, sw_spec(cx, ix, s, mn, mx, n, br is not False, bool(wn), skip=kind == "ExplicitVocab"))


for _k in ("FinalfusionBucketVocab", "FastTextVocab", "ExplicitVocab"):
    vocab_subwords(_k)


def out_getitem(cx, v, s):
    try:
        return "return", cx.e.getitem(v, s)
    except PyRaise as x:
        return "raise", x.exc


sw_bounds("FinalfusionHashIndexer", fifu_ix)
sw_bounds("FastTextIndexer", ft_ix)
sw_bounds("ExplicitIndexer", ex_ix)
for _k in KINDS:
    vocab_contract(_k)


# ------------------------------------------------------------------ explicit indexer (C08)
XQ = XI + ":ExplicitIndexer"
XFN = [XQ + "." + m for m in ("__init__", "__call__", "__getitem__", "__contains__", "__len__", "__iter__", "upper_bound", "ngrams", "ngram_index", "min_n", "max_n")]


def explicit_post(cx, ix, ng, n, g, mn, mx, val):
    e = cx.e
    i, j = cx.int("i", 0), cx.int("j", 0)
    ub = e.int_t(e.getattr(ix, "upper_bound"))
    cx.ensure_eq("length", cx.spec("len(x)", x=ix), n)
    cx.ensure_eq("n-grams are kept in order", e.getattr(ix, "ngrams"), ng)
    cx.ensure_eq("iteration", cx.spec("list(x)", x=ix), ng)
    cx.ensure("n-gram range is kept", z3.And(e.int_t(e.getattr(ix, "min_n")) == mn, e.int_t(e.getattr(ix, "max_n")) == mx))
    cx.requires(z3.And(i < n, j < n, i != j))
    cx.ensure("only distinct n-grams", g(i) != g(j))
    cx.ensure_eq("listed n-gram maps to its index", cx.call(ix, g(i)), val(i))
    cx.ensure_eq("[] of a listed n-gram", e.getitem(ix, g(i)), val(i))
    cx.ensure("indices lie in [0, upper bound)", z3.And(val(i) >= 0, val(i) < ub))
    cx.ensure("contains listed n-grams", e.truth_t(cx.spec("q in x", q=g(i), x=ix)))


def explicit_unlisted(cx, ix, n, g):
    e = cx.e
    s = cx.str("q")
    ii = z3.Const("q_i", I)
    cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < n), g(ii) != s), patterns=[g(ii)]))
    r = cx.call(ix, s)
    cx.record("unlisted n-gram maps to nothing", None if r is None or not e.feasible() else prove.Why("refuted", "an unlisted n-gram is mapped to %r" % (r,)))
    cx.ensure("does not contain unlisted n-grams", z3.Not(e.truth_t(cx.spec("q in x", q=s, x=ix))))


@contract(["C05", "C08"], "ExplicitIndexer.default", XFN)
def explicit_default(cx):
    """ExplicitIndexer(ngrams): accepts exactly distinct n-grams and maps the n-th to n"""
    ng, n, g = words_in(cx, "ngram")
    mn, mx = ngram_range(cx)
    k, ix = cx.outcome(XQ, ng, mn, mx)
    if k == "raise":
        distinct(cx, n, g)
        cx.fail("accepts distinct n-grams", "raises %r" % (ix,))
        return
    if cx.choose(True, False):
        explicit_post(cx, ix, ng, n, g, mn, mx, lambda i: i)
        x = cx.int("x", 0)
        ub = cx.e.int_t(cx.e.getattr(ix, "upper_bound"))
        cx.ensure("upper bound is the number of n-grams", ub == n)
    else:
        explicit_unlisted(cx, ix, n, g)


def indexed(cx):
    ng, n, g = words_in(cx, "ngram")
    mn, mx = ngram_range(cx)
    d, has, val = sym_index_dict(cx, nonneg=False)
    card = d.c.base.card
    return ng, n, g, mn, mx, d, has, val, card


@contract(["C05", "C08"], "ExplicitIndexer.indexed", XFN)
def explicit_indexed(cx):
    """ExplicitIndexer(ngrams, index): accepts only distinct n-grams with indices covering [0, bound)"""
    ng, n, g, mn, mx, d, has, val, card = indexed(cx)
    k, ix = cx.outcome(XQ, ng, mn, mx, d)
    if k == "raise":
        return
    w = cx.choose(0, 1, 2, 3)
    ub = cx.e.int_t(cx.e.getattr(ix, "upper_bound"))
    if w == 0:
        explicit_post(cx, ix, ng, n, g, mn, mx, lambda i: val(g(i)))
    elif w == 1:
        # lemma (pigeonhole): n distinct keys of a dict with n entries are all its keys
        i, j = cx.int("i", 0), cx.int("j", 0)
        ii, s = z3.Const("q_i", I), z3.Const("q_s", Str)
        ok = cx.e.entails(card == n) and cx.e.entails(z3.Implies(z3.And(i < n, j < n, i != j), g(i) != g(j))) and cx.e.entails(z3.Implies(i < n, has(g(i))))
        cx.record("n distinct n-grams, all keys of an index with n entries", None if ok else prove.Why("refuted", "the index may hold other entries than the listed n-grams"))
        pos = cx.func("pos", Str, I)
        cx.requires(z3.ForAll([s], z3.Implies(has(s), z3.And(pos(s) >= 0, pos(s) < n, g(pos(s)) == s)), patterns=[has(s)]))
        explicit_unlisted(cx, ix, n, g)
    elif w == 2:
        x = cx.int("x", 0)
        cx.requires(x < ub)
        cx.ensure("every index below the upper bound is used", cx.e.truth_t(cx.spec("x in set(d.values())", x=x, d=d)))
    else:
        s = cx.str("s")
        cx.requires(has(s))
        cx.ensure("every index lies in [0, upper bound)", z3.And(val(s) >= 0, val(s) < ub))


@contract("C08", "ExplicitIndexer.accepts", [XQ + ".__init__"])
def explicit_accepts(cx):
    """distinct n-grams with an index over exactly them that covers [0, bound) are accepted"""
    ng, n, g, mn, mx, d, has, val, card = indexed(cx)
    distinct(cx, n, g)
    b = cx.int("b", 0)
    s, ii = z3.Const("q_s", Str), z3.Const("q_i", I)
    inv = cx.func("inv", I, Str)
    cx.requires(card == n)
    cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < n), has(g(ii))), patterns=[g(ii)]))
    cx.requires(z3.ForAll([s], z3.Implies(has(s), z3.And(val(s) >= 0, val(s) < b)), patterns=[has(s), val(s)]))
    cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < b), z3.And(has(inv(ii)), val(inv(ii)) == ii)), patterns=[inv(ii)]))
    cx.requires(z3.Implies(b > 0, z3.And(has(inv(0)), has(inv(b - 1)), val(inv(0)) == 0, val(inv(b - 1)) == b - 1, n > 0)))
    cx.requires(z3.Implies(n > 0, z3.And(has(g(0)), b > 0)))
    vs = cx.spec("set(d.values())", d=d).c.base          # the value set, as the code sees it
    cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < b), vs.has(ii)), patterns=[vs.has(ii)]))
    k, ix = cx.outcome(XQ, ng, mn, mx, d)
    if k == "raise":
        cx.fail("accepts a covering index", "raises %r" % (ix,))
    else:
        cx.record("accepts a covering index", None)


# ------------------------------------------------------------------ bucket -> explicit (C08, C09)
import invariant
from builtins_ import DView


def use_ngrams(cx, bucket):
    """callers see only the contracts of ngrams and subword_indices(with_ngrams=True): a list of n-grams that
    depends on the word only (C06), and the bucket of every n-gram (C07)"""
    ln, el = cx.func("NGN", Str, I), cx.func("NGE", Str, I, Str)
    s = z3.Const("q_s", Str)
    cx.requires(z3.ForAll([s], ln(s) >= 0, patterns=[ln(s)]))

    def sm(e, v):
        if v["bracket"] is not True or not e.is_str(v["word"]):
            return NotImplemented
        w = e.str_t(v["word"])
        ix = cx.ix
        if not (e.entails(e.int_t(v["min_n"]) == e.int_t(e.getattr(ix, "min_n"))) and e.entails(e.int_t(v["max_n"]) == e.int_t(e.getattr(ix, "max_n")))):
            return NotImplemented
        return cx.list(ln(w), lambda k: el(w, k))
    cx.e.summaries["finalfusion.subword.ngrams.ngrams"] = sm

    def sw(e, v):
        if v["bracket"] is not True or not isinstance(v["with_ngrams"], bool) or not e.is_str(v["word"]):
            return NotImplemented
        off, w = e.int_t(v["offset"]), e.str_t(v["word"])
        return cx.list(ln(w), lambda k: (el(w, k), bucket(el(w, k)) + off) if v["with_ngrams"] else bucket(el(w, k)) + off)
    for c, m in CLS.items():
        cx.e.summaries[m + "." + c + ".subword_indices"] = sw
        if c != "ExplicitIndexer":
            cx.e.summaries[m + "." + c + ".__call__"] = lambda e, v: bucket(e.str_t(v["ngram"])) if e.is_str(v["ngram"]) else NotImplemented
    return ln, el


class BucketInv:
    """invariant of the conversion loop.  Roles: N: dict n-gram -> index, B: dict bucket -> index, L: list of n-grams"""

    def __init__(self, cx, nw, word, ln, el, bucket):
        self.cx, self.nw, self.word, self.ln, self.el, self.bucket = cx, nw, word, ln, el, bucket
        self.ing = cx.func("INGRAMS", Str, B)
        w, j = z3.Ints("q_w q_j")
        cx.requires(z3.ForAll([w, j], z3.Implies(z3.And(w >= 0, w < nw, j >= 0, j < ln(word(w))), self.ing(el(word(w), j))), patterns=[el(word(w), j)]))

    def bind(self, eng, mods):
        r = {"N": None, "B": None, "L": None}
        for m, cs in mods.items():
            if isinstance(m, Dct):
                keys = [it.v[0] for c in cs for it in c.items if isinstance(it, E)]
                if not keys:
                    return None
                role = "N" if all(eng.is_str(k) for k in keys) else "B" if all(eng.is_int(k) for k in keys) else None
            elif isinstance(m, Lst):
                role = "L"
            else:
                return None
            if role is None or r[role] is not None:
                return None
            r[role] = m
        return r if r["N"] is not None and r["B"] is not None else None

    def entry(self, eng, r):
        for m in r.values():
            if isinstance(m, Dct) and (m.c.base is not None or m.c.items) or isinstance(m, Lst) and m.c:
                return None
        return {"invB": lambda x: iv(0), "wB": lambda x: eng.T.lit(""), "pos": lambda s: iv(0)}

    def havoc(self, eng, r):
        cx = self.cx
        hn, vn, hb, vb = cx.func("hasN", Str, B), cx.func("valN", Str, I), cx.func("hasB", I, B), cx.func("valB", I, I)
        cn, cb = cx.int("cardN", 0, 2 ** 62), cx.int("cardB", 0, 2 ** 62)
        fn = DFun(lambda k: hn(eng.str_t(k)), lambda k: vn(eng.str_t(k)), cn, None, str(hn))
        fb = DFun(lambda k: hb(eng.int_t(k)), lambda k: vb(eng.int_t(k)), cb, None, str(hb))
        r["N"].c, r["B"].c = DC(fn, ()), DC(fb, ())
        s, x = z3.Const("q_s", Str), z3.Const("q_x", I)
        eng.assume(z3.ForAll([s], z3.Implies(hn(s), cn > 0), patterns=[hn(s)]))
        eng.assume(z3.ForAll([x], z3.Implies(hb(x), cb > 0), patterns=[hb(x)]))
        g = {"invB": cx.func("invB", I, I), "wB": cx.func("wB", I, Str), "pos": cx.func("posL", Str, I)}
        if r["L"] is not None:
            l, p = cx.func("L", I, Str), cx.int("p", 0)
            k = eng.T.fresh("k")
            r["L"].c = (For(k, p, [E(l(k))]),)
        return g

    def step(self, eng, r, g0):
        g = dict(g0)
        newg = [eng.str_t(it.v[0]) for it in r["N"].c.items]
        for it in r["B"].c.items:
            b, v = eng.int_t(it.v[0]), eng.int_t(it.v[1])
            g["invB"] = (lambda x, o=g["invB"], b=b, v=v: z3.If(x == v, b, o(x)))
            if newg:
                g["wB"] = (lambda x, o=g["wB"], s=newg[-1], v=v: z3.If(x == v, s, o(x)))
        if r["L"] is not None:
            its = r["L"].c
            if its and isinstance(its[0], For):
                for i, it in enumerate(its[1:]):
                    if not isinstance(it, E):
                        raise Unsupported("list in the conversion loop")
                    g["pos"] = (lambda s, o=g["pos"], a=eng.str_t(it.v), p=its[0].n + i: z3.If(s == a, p, o(s)))
        return g

    def inv(self, eng, r, g, pos):
        hn, vn = invariant.dict_fun(eng, r["N"].c, Str)
        hb, vb = invariant.dict_fun(eng, r["B"].c, I)
        cn, cb = eng.int_t(eng.dict_card(r["N"])), eng.int_t(eng.dict_card(r["B"]))
        s, x, w, j = z3.Const("q_s", Str), z3.Const("q_x", I), z3.Const("q_w", I), z3.Const("q_j", I)
        bk = self.bucket
        out = []
        S = lambda body, *pats: fa([s], body, pats)
        X = lambda body, *pats: fa([x], body, pats)
        out.append(("index is the number of the bucket", S(z3.Implies(hn(s), z3.And(hb(bk(s)), vn(s) == vb(bk(s)))), hn(s))))
        out.append(("bucket numbers are distinct and below their count", X(z3.Implies(hb(x), z3.And(vb(x) >= 0, vb(x) < cb, g["invB"](vb(x)) == x)), hb(x))))
        out.append(("bucket numbers are dense", X(z3.Implies(z3.And(x >= 0, x < cb), z3.And(hb(g["invB"](x)), vb(g["invB"](x)) == x, hn(g["wB"](x)), bk(g["wB"](x)) == g["invB"](x))), g["invB"](x), g["wB"](x))))
        out.append(("only n-grams of the words", S(z3.Implies(hn(s), self.ing(s)), hn(s))))
        if r["L"] is not None:
            its = r["L"].c
            p, lf = iv(0), lambda i: eng.T.lit("")
            for it in its:
                if isinstance(it, For):
                    lf, p = (lambda i, it=it: eng.str_t(eng.subst_val(it.items[0].v, [(it.k, i)]))), it.n
                else:
                    lf, p = (lambda i, o=lf, a=eng.str_t(it.v), q=p: z3.If(i == q, a, o(i))), p + 1
            pf = g["pos"]
            out.append(("the list has as many n-grams as the index", cn == p))
            out.append(("listed n-grams are distinct and indexed", X(z3.Implies(z3.And(x >= 0, x < p), z3.And(hn(lf(x)), pf(lf(x)) == x)), lf(x))))
            out.append(("indexed n-grams are listed", S(z3.Implies(hn(s), z3.And(pf(s) >= 0, pf(s) < p, lf(pf(s)) == s)), hn(s))))
        k = pos[0][0]
        wd = self.word
        out.append(("n-grams of the words so far are indexed", fa([w, j], z3.Implies(z3.And(w >= 0, w < k, j >= 0, j < self.ln(wd(w))), hn(self.el(wd(w), j))), [self.el(wd(w), j)])))
        if len(pos) > 1:
            out.append(("n-grams of the word so far are indexed", fa([j], z3.Implies(z3.And(j >= 0, j < pos[1][0]), hn(self.el(wd(k), j))), [self.el(wd(k), j)])))
        return out

    def after(self, eng, r, g):
        # lemma: the set of values covers [0, cardB)
        cb = eng.int_t(eng.dict_card(r["B"]))
        vs = eng.view_set(DView(r["N"], "values"))
        x = self.cx.int("x", 0)
        f, wx = r["N"].c.base, g["wB"](x)
        w = eng.goal(z3.Implies(x < cb, z3.And(f.has(wx), eng.int_t(f.val(wx)) == x, vs.has(eng.int_t(f.val(wx))))), "lemma")
        self.cx.record("lemma: the indices of the n-grams cover [0, number of buckets used)", w)
        q = z3.Const("q_x", I)
        eng.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < cb), vs.has(q)), patterns=[vs.has(q)]))
        f = r["N"].c.base
        wb = g["wB"]
        eng.assume(z3.Implies(cb > 0, z3.And(f.has(wb(iv(0))), f.has(wb(cb - 1)), eng.int_t(f.val(wb(iv(0)))) == 0, eng.int_t(f.val(wb(cb - 1))) == cb - 1)))
        self.final = (r, g)


def fa(vs, body, pats):
    """ForAll with the usable patterns"""
    ps = []
    for p in pats:
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.num_args() > 0 and all(mentions(p, [v]) for v in vs):
            ps.append(p)
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def to_explicit_contract(kind, ixf):
    q = WV + ":" + kind

    @contract(["C08", "C09"], kind + ".to_explicit", [q + ".to_explicit", WV + ":_bucket_to_explicit"])
    def conv(cx):
        """to_explicit keeps words and range, lists exactly the distinct n-grams and keeps bucket equality"""
        e = cx.e
        use_validate(cx)
        ws, n, w = words_in(cx)
        cx.ix, bound = ixf(cx)
        bucket = cx.func("BUCKET", Str, I)
        s = z3.Const("q_s", Str)
        cx.requires(z3.ForAll([s], z3.And(bucket(s) >= 0, bucket(s) < bound), patterns=[bucket(s)]))
        ln, el = use_ngrams(cx, bucket)
        k, v = cx.outcome(q, ws, cx.ix)
        if k == "raise":
            return
        spec = BucketInv(cx, n, w, ln, el, bucket)
        e.loop_rules.append(invariant.LoopInvariant(cx, "_bucket_to_explicit", spec))
        x = cx.method(v, "to_explicit")
        e.loop_rules.clear()
        cx.record("result is an ExplicitVocab", None if x.cls.name == "ExplicitVocab" else prove.Why("refuted", "result is %s" % x.cls.name))
        xi = e.getattr(x, "subword_indexer")
        cx.ensure_eq("words are kept", e.getattr(x, "words"), ws)
        cx.ensure("n-gram range is kept", z3.And(*[e.int_t(e.getattr(x, a)) == e.int_t(e.getattr(cx.ix, a)) for a in ("min_n", "max_n")]))
        ng = e.getattr(xi, "ngrams")
        i, j = cx.int("i", 0), cx.int("j", 0)
        nn = e.int_t(cx.spec("len(l)", l=ng))
        which = cx.choose(0, 1, 2)
        if which == 0:
            cx.requires(z3.And(i < nn, j < nn, i != j))
            gi, gj = e.str_t(e.getitem(ng, i)), e.str_t(e.getitem(ng, j))
            cx.ensure("listed n-grams are distinct", gi != gj)
            cx.ensure("listed n-grams are n-grams of the words", spec.ing(gi))
        elif which == 1:
            cx.requires(z3.And(i < n, j < ln(w(i))))
            g = el(w(i), j)
            cx.ensure("every n-gram of the words is indexed", e.truth_t(cx.spec("g in x", g=g, x=xi)))
            h = cx.str("h")
            cx.requires(e.truth_t(cx.spec("g in x", g=h, x=xi)))
            a, b = e.int_t(cx.call(xi, g)), e.int_t(cx.call(xi, h))
            cx.ensure("same index exactly when same bucket", (a == b) == (bucket(g) == bucket(h)))
            cx.ensure("index below the upper bound", z3.And(a >= 0, a < e.int_t(e.getattr(xi, "upper_bound"))))
        else:
            x_ = cx.int("x", 0)
            cx.requires(x_ < e.int_t(e.getattr(xi, "upper_bound")))
            cx.ensure("every index below the upper bound is used", e.truth_t(cx.spec("x in set(d.values())", x=x_, d=e.getattr(xi, "ngram_index"))))


to_explicit_contract("FinalfusionBucketVocab", fifu_ix)
to_explicit_contract("FastTextVocab", ft_ix)
