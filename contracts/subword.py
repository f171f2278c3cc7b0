"""Contracts of the n-gram extraction and subword indexers (C06, C07)."""
from contract import contract
from terms import *
from values import *
import prove

NG = "finalfusion.subword.ngrams:ngrams"
HI = "finalfusion.subword.hash_indexers"
XI = "finalfusion.subword.explicit_indexer"
SPEC_NGRAMS = "[b[i:i+n] for i in range(len(b)) for n in range(mx, mn - 1, -1) if i + n <= len(b)]"


def bracketed(cx, w, br):
    return cx.spec("'<' + w + '>'", w=w) if br else w


def inputs(cx):
    w = cx.str("word")
    mn = cx.int("min_n", 1)
    mx = cx.int("max_n", None, 2 ** 32 - 1)
    cx.requires(mx >= mn)
    return w, mn, mx


@contract("C06", "ngrams", [NG])
def ngrams(cx):
    """ngrams(word, min_n, max_n, bracket) == every substring with length in the range, in order"""
    w, mn, mx = inputs(cx)
    br = cx.choose(True, False)
    r = cx.call(NG, w, mn, mx, br)
    b = bracketed(cx, w, br)
    cx.ensure_eq("result is exactly the n-grams in order", r, cx.spec(SPEC_NGRAMS, b=b, mn=mn, mx=mx))


@contract("C06", "ngrams.pre", [NG])
def ngrams_pre(cx):
    """an empty or reversed range is rejected"""
    w = cx.str("word")
    mn = cx.int("min_n", 0, 2 ** 32 - 1)
    mx = cx.int("max_n", 0, 2 ** 32 - 1)
    cx.requires(z3.Or(mx < mn, mn == 0))
    k, v = cx.outcome(NG, w, mn, mx, cx.choose(True, False))
    cx.record("rejected", None if k == "raise" else prove.Why("refuted", "accepted an invalid n-gram range"))


# ------------------------------------------------------- subword indexers
def sym_fifu(cx, mn, mx):
    """an arbitrary FinalfusionHashIndexer, built by its own constructor"""
    ix = cx.call(HI + ":FinalfusionHashIndexer", cx.int("exp", 1, 63), mn, mx)
    return ix, cx.e.int_t(cx.e.getattr(ix, "upper_bound"))


def sym_ft(cx, mn, mx):
    nb = cx.int("n_buckets", 1, 2 ** 32 - 1)
    return cx.call(HI + ":FastTextIndexer", nb, mn, mx), nb


def sym_index_dict(cx, name="ngram_index", nonneg=True):
    """arbitrary dict str -> int"""
    has = cx.func("has_" + name, Str, B)
    val = cx.func("val_" + name, Str, I)
    card = cx.int("card_" + name, 0)
    q = z3.Const("q_dk", Str)
    if nonneg:
        cx.requires(z3.ForAll([q], val(q) >= 0, patterns=[val(q)]))
    cx.requires(z3.ForAll([q], z3.Implies(has(q), card > 0), patterns=[has(q)]))
    f = DFun(lambda k: has(cx.e.str_t(k)), lambda k: val(cx.e.str_t(k)), card, None, str(has))
    return Dct(cx.e, DC(f, ())), has, val


def sym_explicit(cx, mn, mx):
    c = cx.fn(XI + ":ExplicitIndexer")
    d, has, val = sym_index_dict(cx)
    n = cx.int("n_ngrams", 0)
    ng = cx.func("ngram", I, Str)
    bound = cx.int("bound", 0)
    return Obj(cx.e, c, {"_min_n": CV("uint32_t", mn), "_max_n": CV("uint32_t", mx), "_ngrams": cx.list(n, lambda i: ng(i)), "_ngram_index": d, "_bound": CV("uint64_t", bound)}), has, val


def sw_inputs(cx, offmax):
    w, mn, mx = inputs(cx)
    off = cx.int("offset", 0, offmax)
    cx.requires(blen(w) + 2 < 2 ** 32)
    br = cx.choose(True, False)
    wn = cx.choose(False, True)
    return w, mn, mx, off, br, wn


def sw_spec(cx, ix, w, mn, mx, off, br, wn, skip=False):
    b = bracketed(cx, w, br)
    el = "(b[i:i+n], ix(b[i:i+n]) + off)" if wn else "ix(b[i:i+n]) + off"
    cond = "i + n <= len(b)" + (" and ix(b[i:i+n]) is not None" if skip else "")
    return cx.spec("[%s for i in range(len(b)) for n in range(mx, mn - 1, -1) if %s]" % (el, cond), b=b, mn=mn, mx=mx, ix=ix, off=off)


FIFU = z3.Function("FIFU_HASH", Str, BV64)              # 64-bit FNV-1a of length and code points (defined by fifu_spec)
FTH = z3.Function("FT_HASH", Str, I, I, BV32)            # fastText hash of bytes [start, end) of the UTF-8 encoding


def fifu_spec(cx, s):
    """definition of FIFU_HASH: FNV-1a over the 8-byte little-endian length, then the 4-byte code points"""
    e = cx.e
    n = slen(s)
    h0 = e.fnv64(z3.BitVecVal(0xcbf29ce484222325, 64), intbv(n, 64), 8)
    k = z3.Const("sk", I)
    acc = z3.Const("sacc", BV64)
    return e.T.fold(k, n, acc, h0, e.fnv64(acc, intbv(code(s, k), 32), 4))


def ft_spec(cx, s, start, end):
    """definition of FT_HASH: 32-bit FNV-1a with sign-extended bytes"""
    e = cx.e
    k = z3.Const("sk", I)
    acc = z3.Const("sacc", BV32)
    body = (acc ^ z3.SignExt(24, ubyte(s, start + k))) * z3.BitVecVal(16777619, 32)
    n = z3.simplify(end - start)
    return e.T.fold(k, n, acc, z3.BitVecVal(0x811c9dc5, 32), body)


def use_fifu(cx):
    """callers see only the contract of fifu_hash_ngram"""
    def sm(e, v):
        w, st, ln = v["word"], e.int_t(v["start"]), e.int_t(v["length"])
        if not e.is_str(w) or not e.entails(z3.And(st >= 0, ln >= 0, st + ln <= e.int_t(e.length(w)))):
            return NotImplemented
        return CV("uint64_t", FIFU(e.mksub(e.str_t(w), st, ln)))
    cx.e.summaries[HI + ".fifu_hash_ngram"] = sm


def use_ft(cx):
    import files

    def sm(e, v):
        b, st, en = v["b_word"], e.int_t(v["start"]), e.int_t(v["end"])
        t = b.single(e) if isinstance(b, files.Byt) else None
        if isinstance(t, bytes):
            t = files.Utf8(e.T.lit(t.decode()))
        if not isinstance(t, files.Utf8) or not e.entails(z3.And(st >= 0, st <= en, en <= t.nbytes(e))):
            return NotImplemented
        return CV("uint64_t", z3.ZeroExt(32, FTH(e.str_t(t.s), st, en)))
    cx.e.summaries[HI + ".ft_hash_ngram"] = sm
    s = z3.Const("q_s", Str)
    i, n, m = z3.Ints("q_i q_n q_m")
    sub = ssub(s, i, n)
    # lemma (contract ft_hash_ngram.substring below): the hash depends on the bytes only
    cx.requires(z3.ForAll([s, i, n, m], z3.Implies(z3.And(i >= 0, n >= 0, i + n <= slen(s), m == blen(sub)), FTH(sub, 0, m) == FTH(s, boff(s, i), boff(s, i + n))), patterns=[FTH(sub, 0, m)]))


@contract(["C05", "C06", "C07"], "fifu_hash_ngram", [HI + ":fifu_hash_ngram"])
def fifu_hash(cx):
    """fifu_hash_ngram(word, start, length) == FNV-1a-64 of the length and code points of word[start:start+length]"""
    w = cx.str("word")
    st, ln = cx.int("start", 0), cx.int("length", 0, 2 ** 31 - 1)
    cx.requires(st + ln <= slen(w))
    r = cx.call(HI + ":fifu_hash_ngram", w, CV("Py_ssize_t", st), CV("Py_ssize_t", ln))
    spec = fifu_spec(cx, ssub(w, st, ln))
    cx.ensure("hash of the length and code points of the n-gram", cx.e.to_bv(r, 64) == spec)


@contract(["C05", "C06", "C07"], "ft_hash_ngram", [HI + ":ft_hash_ngram"])
def ft_hash(cx):
    """ft_hash_ngram(bytes, start, end) == FNV-1a-32 over the sign-extended bytes"""
    import files
    w = cx.str("word")
    st, en = cx.int("start", 0), cx.int("end", 0)
    cx.requires(z3.And(st <= en, en <= blen(w), blen(w) < 2 ** 63))
    r = cx.call(HI + ":ft_hash_ngram", files.Byt((E(files.Utf8(w)),)), CV("Py_ssize_t", st), CV("Py_ssize_t", en))
    cx.ensure("32-bit hash over the sign-extended bytes", cx.e.to_bv(r, 64) == z3.ZeroExt(32, ft_spec(cx, w, st, en)))


@contract(["C05", "C06", "C07"], "ft_hash_ngram.substring", [])
def ft_hash_sub(cx):
    """lemma: FT_HASH of the encoding of a substring == FT_HASH of that part of the encoding of the string"""
    s = cx.str("s")
    i, n = cx.int("i", 0), cx.int("n", 0)
    cx.requires(i + n <= slen(s))
    sub = ssub(s, i, n)
    cx.ensure("lemma", ft_spec(cx, sub, iv(0), blen(sub)) == ft_spec(cx, s, boff(s, i), boff(s, i + n)))


@contract(["C05", "C06", "C07"], "FinalfusionHashIndexer.subword_indices", [HI + ":FinalfusionHashIndexer.subword_indices", HI + ":FinalfusionHashIndexer.__call__", HI + ":fifu_hash_ngram"])
def fifu_sw(cx):
    """subword_indices == the indexer applied to every n-gram, in order, plus the offset"""
    w, mn, mx, off, br, wn = sw_inputs(cx, 2 ** 63)
    ix, m = sym_fifu(cx, mn, mx)
    use_fifu(cx)
    r = cx.method(ix, "subword_indices", w, offset=off, bracket=br, with_ngrams=wn)
    cx.ensure_eq("indices of exactly the n-grams in order", r, sw_spec(cx, ix, w, mn, mx, off, br, wn))


@contract(["C05", "C06", "C07"], "FastTextIndexer.subword_indices", [HI + ":FastTextIndexer.subword_indices", HI + ":FastTextIndexer.__call__", HI + ":ft_hash_ngram", HI + ":find_utf8_boundaries"])
def ft_sw(cx):
    """subword_indices == the indexer applied to every n-gram (in characters), in order, plus the offset"""
    w, mn, mx, off, br, wn = sw_inputs(cx, 2 ** 63)
    ix, nb = sym_ft(cx, mn, mx)
    use_ft(cx)
    r = cx.method(ix, "subword_indices", w, offset=off, bracket=br, with_ngrams=wn)
    cx.ensure_eq("indices of exactly the n-grams in order", r, sw_spec(cx, ix, w, mn, mx, off, br, wn))


@contract(["C05", "C06"], "ExplicitIndexer.subword_indices", [XI + ":ExplicitIndexer.subword_indices", XI + ":ExplicitIndexer.__call__"])
def ex_sw(cx):
    """subword_indices == the index of every listed n-gram, in order, plus the offset"""
    w, mn, mx, off, br, wn = sw_inputs(cx, 2 ** 63)
    ix, has, val = sym_explicit(cx, mn, mx)
    r = cx.method(ix, "subword_indices", w, offset=off, bracket=br, with_ngrams=wn)
    cx.ensure_eq("indices of exactly the known n-grams in order", r, sw_spec(cx, ix, w, mn, mx, off, br, wn, skip=True))


# ------------------------------------------------------- C07: __call__ and constructors
@contract(["C05", "C07"], "FinalfusionHashIndexer", [HI + ":FinalfusionHashIndexer.__init__", HI + ":FinalfusionHashIndexer.__call__", HI + ":FinalfusionHashIndexer.upper_bound", HI + ":FinalfusionHashIndexer.buckets_exp", HI + ":FinalfusionHashIndexer.min_n", HI + ":FinalfusionHashIndexer.max_n"])
def fifu_call(cx):
    """for every bucket exponent 1..63: index == FIFU_HASH & (2^exp - 1) < 2^exp == upper_bound"""
    exp = cx.choose(*range(1, 64))
    mn, mx = cx.int("min_n", 1), cx.int("max_n", None, 2 ** 32 - 1)
    cx.requires(mx >= mn)
    g = cx.str("ngram")
    cx.requires(slen(g) < 2 ** 31)
    use_fifu(cx)
    ix = cx.call(HI + ":FinalfusionHashIndexer", exp, mn, mx)
    r = cx.call(ix, g)
    cx.ensure_eq("index is the low bits of the hash", r, bvint(FIFU(g) & z3.BitVecVal(2 ** exp - 1, 64)))
    ub = cx.e.int_t(cx.e.getattr(ix, "upper_bound"))
    cx.ensure("upper bound is the number of buckets", ub == 2 ** exp)
    cx.ensure("index lies in [0, upper bound)", z3.And(cx.e.int_t(r) >= 0, cx.e.int_t(r) < ub))
    cx.ensure("settings are kept", z3.And(cx.e.int_t(cx.e.getattr(ix, "min_n")) == mn, cx.e.int_t(cx.e.getattr(ix, "max_n")) == mx, cx.e.int_t(cx.e.getattr(ix, "buckets_exp")) == exp))


@contract("C07", "FinalfusionHashIndexer.pre", [HI + ":FinalfusionHashIndexer.__init__"])
def fifu_pre(cx):
    """settings that cannot be represented are rejected"""
    exp = cx.int("exp")
    mn, mx = cx.int("min_n"), cx.int("max_n")
    cx.requires(z3.Or(exp <= 0, exp >= 64, mn <= 0, mx < mn))
    k, v = cx.outcome(HI + ":FinalfusionHashIndexer", exp, mn, mx)
    if k == "return":
        cx.fail("rejected", "accepted a bucket exponent or n-gram range outside its domain")
    else:
        cx.record("rejected", None)


@contract(["C05", "C07"], "FastTextIndexer", [HI + ":FastTextIndexer.__init__", HI + ":FastTextIndexer.__call__", HI + ":FastTextIndexer.upper_bound", HI + ":FastTextIndexer.n_buckets", HI + ":FastTextIndexer.min_n", HI + ":FastTextIndexer.max_n"])
def ft_call(cx):
    """for every bucket count 1..2^32-1: index == FT_HASH % n_buckets < n_buckets == upper_bound"""
    nb = cx.int("n_buckets", 1, 2 ** 32 - 1)
    mn, mx = cx.int("min_n", 1), cx.int("max_n", None, 2 ** 32 - 1)
    cx.requires(mx >= mn)
    g = cx.str("ngram")
    cx.requires(blen(g) < 2 ** 31)
    use_ft(cx)
    ix = cx.call(HI + ":FastTextIndexer", nb, mn, mx)
    r = cx.call(ix, g)
    cx.ensure_eq("index is the hash modulo the number of buckets", r, bvint(FTH(g, iv(0), blen(g))) % nb)
    ub = cx.e.int_t(cx.e.getattr(ix, "upper_bound"))
    cx.ensure("upper bound is the number of buckets", ub == nb)
    cx.ensure("index lies in [0, upper bound)", z3.And(cx.e.int_t(r) >= 0, cx.e.int_t(r) < ub))
    cx.ensure("settings are kept", z3.And(cx.e.int_t(cx.e.getattr(ix, "min_n")) == mn, cx.e.int_t(cx.e.getattr(ix, "max_n")) == mx, cx.e.int_t(cx.e.getattr(ix, "n_buckets")) == nb))


@contract("C07", "FastTextIndexer.pre", [HI + ":FastTextIndexer.__init__"])
def ft_pre(cx):
    """settings that cannot be represented are rejected"""
    nb = cx.int("n_buckets")
    mn, mx = cx.int("min_n"), cx.int("max_n")
    cx.requires(z3.Or(nb <= 0, nb > 2 ** 32 - 1, mn <= 0, mx < mn))
    k, v = cx.outcome(HI + ":FastTextIndexer", nb, mn, mx)
    if k == "return":
        cx.fail("rejected", "accepted a bucket count or n-gram range outside its domain")
    else:
        cx.record("rejected", None)
