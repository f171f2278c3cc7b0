"""C13-C15 (and the frame conditions of C16): the word2vec, text and fastText formats."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
import files
from arrays import AX, AData, Arr, mk, sqrtR
from files import Utf8, TextT, Blob, PathV, toks_len
from lookup import sym_emb, unchanged, EMC
from storage import ND, NM, rejected
from quant import QAC
from vocab import VV

W2 = "finalfusion.compat.word2vec"


def unnorm(p, i, j):
    """component j of the row of word i, scaled by its norm if there are norms"""
    t = p["row"](i, j)
    return t * p["nd"].at(i) if p["nd"] is not None else t


def w2v_head(n, cols):
    return [E(TextT(n)), E(b" "), E(TextT(cols)), E(b"\n")]


def vec_blob(cx, cols, f):
    return E(Blob(AData([cols], "float32", f(AX[0]))))


@contract(["C13", "C16"], "write_word2vec", [W2 + ":write_word2vec"], max_paths=600)
def w2v_write(cx):
    """the header line, then every word in order with its unnormalised row; the embeddings are unchanged"""
    e = cx.e
    p = sym_emb(cx, PN=cx.choose((False, False), (True, True)), lookups=False)
    path = PathV(e)
    cx.call(W2 + ":write_word2vec", path, p["e"])
    i = e.T.fresh("k")
    want = w2v_head(p["n"], p["cols"]) + [For(i, p["n"], [E(Utf8(p["w"](i))), E(b" "), vec_blob(cx, p["cols"], lambda j: unnorm(p, i, j)), E(b"\n")])]
    cx.record("file contents", files.prove_bytes(e, path.current(e) or (), want, "file"))
    unchanged(cx, p)


def file_words(cx, bad, first=()):
    """arbitrary distinct words free of the given byte, not starting with one of the given characters"""
    from vocab import words_in, distinct
    e = cx.e
    ws, n, w = words_in(cx)
    cx.requires(n < 2 ** 40)
    distinct(cx, n, w)
    i, k = z3.Const("q_i", I), z3.Const("q_k", I)
    cx.requires(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < n, k >= 0, k < blen(w(i))), ubyte(w(i), k) != z3.BitVecVal(bad, 8)), patterns=[ubyte(w(i), k)]))
    for c in first:
        cx.requires(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Or(slen(w(i)) == 0, code(w(i), 0) != ord(c))), patterns=[w(i)]))
    return ws, n, w


def w2v_file(cx, n, w, cols, vec):
    """what write_word2vec writes, with the newline after row i-1 seen as the start of row i"""
    i = cx.e.T.fresh("k")
    return tuple(w2v_head(n, cols)) + (For(i, n, [IfI(i > 0, [E(b"\n")], []), E(Utf8(w(i))), E(b" "), vec_blob(cx, cols, lambda j: vec(i, j))]), IfI(n > 0, [E(b"\n")], []))


def unit_rows(cx, r, n, w, cols, vec, pre=""):
    """r: embeddings over the words with rows vec(i) / |vec(i)| and norms |vec(i)|"""
    e = cx.e
    if not isinstance(r, Obj) or r.cls.name != "Embeddings":
        return cx.record("is embeddings", prove.Why("refuted", "got %r" % (r,)))
    cx.record("is embeddings", None)
    v = e.getattr(r, "vocab")
    cx.ensure_eq("the words in order", cx.spec("list(v)", v=v), cx.list(n, w))
    j = e.T.fresh("j")
    nrm = lambda i: sqrtR(e.T.sum(j, cols, vec(i, j) * vec(i, j)))
    s, nm = e.getattr(r, "storage"), e.getattr(r, "norms")
    ok = isinstance(s, Arr) and isinstance(nm, Arr)
    cx.record("a matrix and norms", None if ok else prove.Why("refuted", "%r %r" % (s, nm)))
    if ok:
        cx.record("rows are the stored vectors divided by their length", s.values().prove_eq(e, AData([n, cols], "float32", vec(AX[0], AX[1]) / nrm(AX[0])), "matrix"))
        cx.record("norms are the lengths of the stored vectors", nm.values().prove_eq(e, AData([n], "float32", nrm(AX[0])), "norms"))


@contract("C13", "load_word2vec", [W2 + ":load_word2vec", W2 + ":_read_binary_word", "finalfusion._util:_normalize_matrix"])
def w2v_load(cx):
    """the words and vectors of a complete file"""
    from vocab import use_validate
    e = cx.e
    ws, n, w = file_words(cx, 0x20, "\n")
    use_validate(cx)
    cols = cx.int("cols", 0, 2 ** 20)
    vec = cx.func("vec", I, I, R)
    r = cx.call(W2 + ":load_word2vec", PathV(e, w2v_file(cx, n, w, cols, vec)), *cx.choose([], [True], [False]))
    unit_rows(cx, r, n, w, cols, vec)


@contract("C13", "load_word2vec.cut", [W2 + ":load_word2vec", W2 + ":_read_binary_word"], max_paths=1500)
def w2v_cut(cx):
    """a file that ends before its last row is complete is rejected"""
    from vocab import use_validate
    e = cx.e
    ws, n, w = file_words(cx, 0x20, "\n")
    use_validate(cx)
    cols = cx.int("cols", 0, 2 ** 20)
    vec = cx.func("vec", I, I, R)
    f = w2v_file(cx, n, w, cols, vec)
    cut = cx.int("cut", 0)
    cx.requires(z3.And(cut >= toks_len(e, f[:4]), cut < toks_len(e, f[:5])))
    rejected(cx, "an incomplete file is rejected", cx.outcome(W2 + ":load_word2vec", PathV(e, f, cut), *cx.choose([], [True])))


# ------------------------------------------------------------------ text (C14)
TX = "finalfusion.compat.text"
ASCII_WS = " \t\n\r\x0b\x0c"


def text_line(cx, word, cols, f, sep=b" "):
    from files import JoinT, JoinStr
    j = cx.e.T.fresh("j")
    return [E(Utf8(word)), E(sep), E(JoinT(JoinStr(" ", [For(j, cols, [E(FStr([f(j)]))])]))), E(b"\n")]


def text_write(fn, dims):
    def c(cx):
        e = cx.e
        p = sym_emb(cx, PN=cx.choose((False, False), (True, True)), lookups=False)
        cx.requires(p["cols"] >= 1)
        path = PathV(e)
        sep = cx.choose(None, " ", "\t")
        cx.call(TX + ":" + fn, path, p["e"], *([] if sep is None else [sep]))
        i = e.T.fresh("k")
        want = [For(i, p["n"], text_line(cx, p["w"](i), p["cols"], lambda j: unnorm(p, i, j), (sep or " ").encode()))]
        if dims:
            want = w2v_head(p["n"], p["cols"]) + want
        cx.record("file contents", files.prove_bytes(e, path.current(e) or (), want, "file"))
        unchanged(cx, p)
    c.__doc__ = "one line per word with its unnormalised row%s; the embeddings are unchanged" % (", after a line with the dimensions" if dims else "")
    contract(["C14", "C16"], fn, [TX + ":" + fn, TX + ":_write_text"], max_paths=600)(c)


def text_words(cx):
    """arbitrary distinct words free of ASCII whitespace"""
    from vocab import words_in, distinct
    ws, n, w = words_in(cx)
    cx.requires(n < 2 ** 40)
    distinct(cx, n, w)
    i, k = z3.Const("q_i", I), z3.Const("q_k", I)
    cx.requires(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < n, k >= 0, k < slen(w(i))), z3.And(*[code(w(i), k) != ord(c) for c in ASCII_WS])), patterns=[code(w(i), k)]))
    return ws, n, w


def text_load(fn, dims):
    def ok(cx):
        from vocab import use_validate
        e = cx.e
        ws, n, w = text_words(cx)
        use_validate(cx)
        cols = cx.int("cols", 1, 2 ** 20)
        if not dims:
            cx.requires(n >= 1)
        vec = cx.func("vec", I, I, R)
        i = e.T.fresh("k")
        sep = cx.choose(b" ", b"\t")
        f = (w2v_head(n, cols) if dims else []) + [For(i, n, text_line(cx, w(i), cols, lambda j: vec(i, j), sep))]
        r = cx.call(TX + ":" + fn, PathV(e, tuple(f)), *cx.choose([], [True]))
        unit_rows(cx, r, n, w, cols, vec)
    ok.__doc__ = "the words and vectors of a file"
    contract("C14", fn, [TX + ":" + fn, TX + ":_load_text", "finalfusion._util:_normalize_matrix"])(ok)

    def bad(cx):
        from vocab import use_validate
        e = cx.e
        ws, n, w = text_words(cx)
        use_validate(cx)
        cols = cx.int("cols", 1, 2 ** 20)
        m = cx.func("m", I, I)
        i = z3.Const("q_i", I)
        cx.requires(z3.ForAll([i], z3.And(m(i) >= 1, m(i) < 2 ** 20), patterns=[m(i)]))
        b = cx.int("b", 0)
        cx.requires(z3.And(b < n, m(b) != cols))
        if not dims:
            cx.requires(m(0) == cols)
        vec = cx.func("vec", I, I, R)
        i = e.T.fresh("k")
        f = (w2v_head(n, cols) if dims else []) + [For(i, n, text_line(cx, w(i), m(i), lambda j: vec(i, j)))]
        rejected(cx, "a line with another number of components is rejected", cx.outcome(TX + ":" + fn, PathV(e, tuple(f)), *cx.choose([], [True])))
    bad.__doc__ = "a line with another number of components is rejected"
    contract("C14", fn + ".components", [TX + ":" + fn, TX + ":_load_text"])(bad)


for _fn, _d in (("text", False), ("text_dims", True)):
    text_write("write_" + _fn, _d)
    text_load("load_" + _fn, _d)


# -------------------------------------------------------------- fastText (C15)
FT = "finalfusion.compat.fasttext"
CFG = ["dims", "window_size", "epoch", "min_count", "ns", "word_ngrams", "loss", "model", "buckets", "min_n", "max_n", "lr_update_rate"]
LOSS = ["HierarchicalSoftmax", "NegativeSampling", "Softmax"]
MODEL = ["CBOW", "SkipGram", "Supervised"]
from files import IntT, FltT


def i32(t):
    return E(IntT(4, t, True))


def i64(t):
    return E(IntT(8, t, True))


def ft_sw(cx, bound):
    from vocab import use_sw_abstract
    return use_sw_abstract(cx, bound)


@contract(["C15", "C16"], "write_fasttext", [FT + ":write_fasttext", FT + ":_write_ft_cfg", FT + ":_write_ft_vocab", FT + ":_write_ft_storage_subwords"], max_paths=600)
def ft_write(cx):
    """header, configuration, words, and the rows such that the mean of a word's row and its subword rows is
    its unnormalised row; the embeddings are unchanged"""
    e = cx.e
    p = sym_emb(cx, kinds=("FastTextVocab",), skinds=("NdArray", "QuantizedArray"))
    n, w, cols, row = p["n"], p["w"], p["cols"], p["row"]
    cx.requires(z3.And(n < 2 ** 31, cols < 2 ** 31, p["bound"] < 2 ** 31))
    mn, mx = e.int_t(e.getattr(p["ix"], "min_n")), e.int_t(e.getattr(p["ix"], "max_n"))
    cx.requires(mx < 2 ** 31)
    path = PathV(e)
    cx.call(FT + ":write_fasttext", path, p["e"])
    got = list(files.norm_toks(e, path.current(e) or ()))
    k, m = e.T.fresh("k"), e.T.fresh("m")
    ln, el = p["sw"]
    raw = lambda i, j: unnorm(p, i, j) * z3.ToReal(ln(w(i)) + 1) - e.T.sum(m, ln(w(i)), row(el(w(i), m) + n, j))
    head = [i32(793712314), i32(12), i32(cols), i32(0), i32(0), i32(0), i32(0), i32(1), i32(1), i32(1), i32(p["bound"]), i32(mn), i32(mx), i32(0), E(FltT(8, z3.RealVal(0))),
            i32(n), i32(n), i32(0), i64(0), i64(-1), For(k, n, [E(Utf8(w(k))), E(b"\0" * 10)]), E(b"\0"), E(IntT(8, p["ub"])), E(IntT(8, cols)),
            E(Blob(AData([n, cols], "float32", raw(AX[0], AX[1])))), E(Blob(AData([p["bound"], cols], "float32", row(AX[0] + n, AX[1]))))]
    want = files.norm_toks(e, head)
    cx.record("file contents", e.prove_items(tuple(got[:len(want)]), want, "file"))
    unchanged(cx, p)


def ft_file(cx, n, w, cols, vec, bound, mn, mx, **over):
    """a fastText model (the fields that loading does not interpret are arbitrary)"""
    e = cx.e
    cfg = {c: over[c] if c in over else cx.int(c, -2 ** 31, 2 ** 31 - 1) for c in CFG}
    cfg.update(dims=over.get("dims", cols), buckets=bound, min_n=mn, max_n=mx)
    k = e.T.fresh("k")
    cnt, typ = cx.func("cnt", I, I), over.get("typ", lambda i: iv(0))
    f = [i32(over.get("magic", 793712314)), i32(over.get("version", 12))] + [i32(cfg[c]) for c in CFG] + [E(FltT(8, e.T.fresh("t", R)))]
    f += [i32(n), i32(cx.int("nw", -2 ** 31, 2 ** 31 - 1)), i32(over.get("labels", 0)), i64(cx.int("ntok", -2 ** 63, 2 ** 63 - 1)), i64(over.get("prune", -1))]
    f += [For(k, n, [E(Utf8(w(k))), E(b"\0"), i64(cnt(k)), E(IntT(1, typ(k), True))])]
    f += [E(IntT(1, over.get("quant", 0))), i64(n + bound), i64(cols), E(Blob(AData([n, cols], "float32", vec(AX[0], AX[1])))), E(Blob(AData([bound, cols], "float32", vec(AX[0] + n, AX[1]))))]
    return tuple(f), cfg


def ft_base(cx):
    from vocab import use_validate
    ws, n, w = file_words(cx, 0)
    use_validate(cx)
    bound, mn, mx = cx.int("buckets", 1, 2 ** 31 - 1), cx.int("min_n", 1, 2 ** 31 - 1), cx.int("max_n", 1, 2 ** 31 - 1)
    cx.requires(z3.And(mn <= mx, n < 2 ** 31))
    cols = cx.int("cols", 0, 2 ** 20)
    return n, w, cols, cx.func("vec", I, I, R), bound, mn, mx


@contract("C15", "load_fasttext", [FT + ":load_fasttext", FT + ":_read_ft_header", FT + ":_read_ft_cfg", FT + ":_read_ft_vocab", FT + ":_read_binary_word", FT + ":_read_ft_storage", FT + ":_precompute_word_vecs", "finalfusion._util:_normalize_matrix"], max_paths=1500)
def ft_load(cx):
    """words, configuration, the mean of each word's row and subword rows normalised to unit length, its length as norm, the subword rows"""
    e = cx.e
    n, w, cols, vec, bound, mn, mx = ft_base(cx)
    ln, el = ft_sw(cx, bound)
    li, mi = cx.choose((1, 1), (2, 2), (3, 1))
    f, cfg = ft_file(cx, n, w, cols, vec, bound, mn, mx, loss=li, model=mi)
    r = cx.call(FT + ":load_fasttext", PathV(e, f), *cx.choose([], [True]))
    if not isinstance(r, Obj) or r.cls.name != "Embeddings":
        return cx.record("is embeddings", prove.Why("refuted", "got %r" % (r,)))
    v = e.getattr(r, "vocab")
    if not isinstance(v, Obj) or v.cls.name != "FastTextVocab":
        return cx.record("has a fastText vocabulary", prove.Why("refuted", "got %r" % (v,)))
    cx.ensure_eq("the words in order", cx.spec("list(v)", v=v), cx.list(n, w))
    ix = e.getattr(v, "subword_indexer")
    for a, t in (("n_buckets", bound), ("min_n", mn), ("max_n", mx)):
        cx.ensure(a, e.int_t(e.getattr(ix, a)) == t)
    md = e.getattr(r, "metadata")
    for c in CFG:
        x = e.getitem(md, c)
        want = LOSS[li - 1] if c == "loss" else MODEL[mi - 1] if c == "model" else cfg[c]
        cx.ensure_eq("metadata " + c, x, want)
    m, j = e.T.fresh("m"), e.T.fresh("j")
    mean = lambda i, q: (vec(i, q) + e.T.sum(m, ln(w(i)), vec(el(w(i), m) + n, q))) / z3.ToReal(ln(w(i)) + 1)
    nrm = lambda i: sqrtR(e.T.sum(j, cols, mean(i, j) * mean(i, j)))
    s, nm = e.getattr(r, "storage"), e.getattr(r, "norms")
    ok = isinstance(s, Arr) and isinstance(nm, Arr)
    cx.record("a matrix and norms", None if ok else prove.Why("refuted", "%r %r" % (s, nm)))
    if ok:
        d = s.values()
        i, q = cx.int("row", 0), cx.int("col", 0)
        cx.requires(q < cols)
        cx.ensure("shape", z3.And(d.shape[0] == n + bound, d.shape[1] == cols))
        if cx.choose(True, False):
            cx.requires(i < n)
            cx.record("word rows are the normalised means", arrays.prove_term(e, d.at(i, q), mean(i, q) / nrm(i), "row"))
        else:
            cx.requires(z3.And(i >= n, i < n + bound))
            cx.record("subword rows are as stored", arrays.prove_term(e, d.at(i, q), vec(i, q), "row"))
        cx.record("norms are the lengths of the means", nm.values().prove_eq(e, AData([n], "float32", nrm(AX[0])), "norms"))


def ft_reject(name, doc, make):
    @contract("C15", "load_fasttext." + name, [FT + ":load_fasttext", FT + ":_read_ft_header", FT + ":_read_ft_cfg", FT + ":_read_ft_vocab", FT + ":_read_ft_storage"])
    def c(cx):
        n, w, cols, vec, bound, mn, mx = ft_base(cx)
        ft_sw(cx, bound)
        over = dict(loss=1, model=1)
        over.update(make(cx))
        f, cfg = ft_file(cx, n, w, cols, vec, bound, mn, mx, **over)
        oc = cx.outcome(FT + ":load_fasttext", PathV(cx.e, f), *cx.choose([], [True]))
        cx.record(doc, None if oc[0] == "raise" else prove.Why("refuted", "accepted"))
    c.__doc__ = doc


def other(cx, nm, w, good):
    t = cx.int(nm, -2 ** (8 * w - 1), 2 ** (8 * w - 1) - 1)
    cx.requires(good(t))
    return t


ft_reject("magic", "another magic number is rejected", lambda cx: dict(magic=other(cx, "magic", 4, lambda t: t != 793712314)))
ft_reject("version", "another version is rejected", lambda cx: dict(version=other(cx, "version", 4, lambda t: t != 12)))
ft_reject("labels", "a supervised model (with labels) is rejected", lambda cx: dict(labels=other(cx, "labels", 4, lambda t: t != 0)))
ft_reject("pruned", "a pruned model is rejected", lambda cx: dict(prune=other(cx, "prune", 8, lambda t: t >= 0)))
ft_reject("quantized", "a quantized model is rejected", lambda cx: dict(quant=1))


# ------------------------------------------- lemmas connecting writers and readers
@contract(["C13", "C14", "C15"], "round trip lemma", [])
def lemma(cx):
    """over the contracts above: a row x of unit length with norm c > 0, written as c * x, is loaded as x with norm c
    (sum of squares of c * x is c^2 times that of x: induction over the number of columns); the fastText word row
    c * x * (m + 1) - S is loaded with mean (row + S) / (m + 1) = c * x"""
    e = cx.e
    Rv = lambda h: e.T.fresh(h, R)
    c, x = Rv("c"), cx.func("x", I, R)
    S1, S2 = cx.func("S1", I, R), cx.func("S2", I, R)      # sums of (c*x)^2 and x^2 over the first k columns
    k = cx.int("k", 0)
    cx.requires(z3.And(S1(0) == 0, S2(0) == 0))
    cx.ensure("base", S1(0) == c * c * S2(0))
    s1, s2, xk = Rv("s1"), Rv("s2"), Rv("xk")
    cx.ensure("step", z3.Implies(s1 == c * c * s2, s1 + (c * xk) * (c * xk) == c * c * (s2 + xk * xk)))
    r = Rv("root")                                         # square root of the sum of squares of c * x
    cx.requires(z3.And(c > 0, r >= 0))
    cx.ensure("length", z3.Implies(z3.And(s2 == 1, s1 == c * c * s2, r * r == s1), r == c))
    cx.ensure("row", z3.Implies(r == c, (c * xk) / r == xk))
    S, m = Rv("S"), cx.int("m", 0)
    mr = Rv("mr")                                          # number of subwords plus one
    cx.requires(mr >= 1)
    cx.ensure("mean", ((c * xk * mr - S) + S) / mr == c * xk)
