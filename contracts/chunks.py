"""Contracts of the chunk readers and writers (C01-C04)."""
from contract import contract
from terms import *
from values import *
import prove
import files
from files import IntT, FltT, Utf8, PadT, Blob, Short, Opaque_, FileR, FileW, PathV, toks_len, norm_toks
from subword import HI, XI, sym_index_dict
from vocab import VV, SV, WV, KINDS, words_in, distinct, use_validate, fifu_ix, ft_ix, ngram_range, XQ

IO = "finalfusion.io"
IDS = {"Header": 0, "SimpleVocab": 1, "NdArray": 2, "FinalfusionBucketVocab": 3, "QuantizedArray": 4, "Metadata": 5, "Norms": 6, "FastTextVocab": 7, "ExplicitVocab": 8}


def u32(v):
    return E(IntT(4, v))


def u64(v):
    return E(IntT(8, v))


def chunk(cx, ident, body):
    """identifier, exact length, body"""
    body = tuple(body)
    return (u32(ident), u64(toks_len(cx.e, body))) + body


def item_toks(cx, n, w, extra=lambda i: ()):
    k = cx.e.T.fresh("k")
    return (For(k, n, [u32(files.ublen(cx.e, w(k))), E(Utf8(w(k)))] + list(extra(k))),)


def word_sizes(cx, w):
    """the UTF-8 form of a word is shorter than 4 GiB (its length is stored in 4 bytes)"""
    i = z3.Const("q_i", I)
    cx.requires(z3.ForAll([i], z3.And(blen(w(i)) >= 0, blen(w(i)) < 2 ** 32), patterns=[w(i)]))


def ex_full(cx):
    """an ExplicitIndexer with all of its class invariant: n distinct n-grams, exactly the keys of the index"""
    mn, mx = ngram_range(cx)
    c = cx.fn(XI + ":ExplicitIndexer")
    d, has, val = sym_index_dict(cx)
    ng, n, g = words_in(cx, "ngram")
    bound = cx.int("bound", 0)
    s, ii = z3.Const("q_s", Str), z3.Const("q_i", I)
    pos = distinct(cx, n, g)
    cx.requires(z3.ForAll([s], z3.Implies(has(s), z3.And(val(s) >= 0, val(s) < bound, pos(s) >= 0, pos(s) < n, g(pos(s)) == s)), patterns=[val(s), has(s)]))
    cx.requires(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < n), z3.And(has(g(ii)), val(g(ii)) >= 0, val(g(ii)) < bound)), patterns=[g(ii)]))
    cx.requires(d.c.base.card == n)
    cx.requires(bound < 2 ** 62)
    word_sizes(cx, g)
    o = Obj(cx.e, c, {"_min_n": CV("uint32_t", mn), "_max_n": CV("uint32_t", mx), "_ngrams": ng, "_ngram_index": d, "_bound": CV("Py_ssize_t", bound)})
    return o, dict(mn=mn, mx=mx, n=n, g=g, val=val, has=has, bound=bound, ng=ng, d=d)


def use_explicit_ctor(cx, x):
    """the constructor seen through its contracts (ExplicitIndexer.indexed, ExplicitIndexer.accepts): given the n-grams and
    (as a mapping) the index of a valid indexer it is accepted, keeps them, and has the same upper bound"""
    def sm(e, v):
        if v.get("ngram_index") is None:
            return NotImplemented
        mn, mx = e.int_t(v["min_n"]), e.int_t(v["max_n"])
        if e.prove_val(v["ngrams"], x["ng"], "n-grams") or e.prove_val(v["ngram_index"], x["d"], "index") or e.goal(z3.And(mx >= mn, mn > 0)):
            return NotImplemented
        v["self"].c = {"_min_n": CV("uint32_t", mn), "_max_n": CV("uint32_t", mx), "_ngrams": v["ngrams"], "_ngram_index": v["ngram_index"], "_bound": CV("Py_ssize_t", x["bound"])}
        return None
    cx.e.summaries[XI + ".ExplicitIndexer.__init__"] = sm


def sym_vocab(cx, kind):
    """(vocab object, its words n, w, body layout)"""
    e = cx.e
    use_validate(cx)
    ws, n, w = words_in(cx)
    word_sizes(cx, w)
    distinct(cx, n, w)
    info = dict(ws=ws, n=n, w=w, kind=kind)
    its = item_toks(cx, n, w)
    if kind == "SimpleVocab":
        args, body = [ws], (u64(n),) + its
    elif kind == "ExplicitVocab":
        ix, x = ex_full(cx)
        use_explicit_ctor(cx, x)
        args = [ws, ix]
        body = (u64(n), u64(x["n"]), u32(x["mn"]), u32(x["mx"])) + its + item_toks(cx, x["n"], x["g"], lambda k: [u64(x["val"](x["g"](k)))])
        info.update(ix=ix, x=x)
    else:
        ix, _ = (fifu_ix if kind == "FinalfusionBucketVocab" else ft_ix)(cx)
        b = e.getattr(ix, "buckets_exp" if kind == "FinalfusionBucketVocab" else "n_buckets")
        args = [ws, ix]
        body = (u64(n), u32(e.int_t(e.getattr(ix, "min_n"))), u32(e.int_t(e.getattr(ix, "max_n"))), u32(e.int_t(b))) + its
        info.update(ix=ix, b=e.int_t(b))
    v = cx.call(KINDS[kind][0] + ":" + kind, *args)
    # file sizes fit in 63 bits
    cx.requires(toks_len(e, body) < 2 ** 63)
    info.update(v=v, body=body)
    return info


def vocab_eq(cx, r, f, pre=""):
    e = cx.e
    kind = f["kind"]
    if not isinstance(r, Obj) or r.cls.name != kind:
        cx.record(pre + "kind is kept", prove.Why("refuted", "got %r" % (r,)))
        return
    cx.record(pre + "kind is kept", None)
    cx.ensure_eq(pre + "words are kept", e.getattr(r, "words"), f["ws"])
    if kind == "SimpleVocab":
        return
    xi = e.getattr(r, "subword_indexer")
    ix = f["ix"]
    cx.ensure(pre + "n-gram range is kept", z3.And(*[e.int_t(e.getattr(xi, a)) == e.int_t(e.getattr(ix, a)) for a in ("min_n", "max_n")]))
    if kind == "ExplicitVocab":
        x = f["x"]
        cx.ensure_eq(pre + "n-grams are kept", e.getattr(xi, "ngrams"), x["ng"])
        cx.ensure_eq(pre + "n-gram indices are kept", e.getattr(xi, "ngram_index"), x["d"])
        cx.ensure(pre + "upper bound is kept", e.int_t(e.getattr(xi, "upper_bound")) == x["bound"])
    else:
        cx.ensure(pre + "bucket count is kept", e.int_t(e.getattr(xi, "upper_bound")) == e.int_t(e.getattr(ix, "upper_bound")))
        if kind == "FinalfusionBucketVocab":
            cx.ensure(pre + "bucket exponent is kept", e.int_t(e.getattr(xi, "buckets_exp")) == f["b"])


def vocab_chunk(kind):
    q = KINDS[kind][0] + ":" + kind

    @contract(["C01", "C02", "C16"], kind + ".write_chunk", [q + ".write_chunk"])
    def write(cx):
        """writes exactly the chunk: identifier, exact length, fields in the published layout"""
        f = sym_vocab(cx, kind)
        out = FileW(cx.e, cx.int("pos", 0))
        snap = cx.heap()
        cx.method(f["v"], "write_chunk", out)
        cx.frame("writing changes nothing", snap)
        cx.record("bytes written are the chunk", files.prove_bytes(cx.e, out.c, chunk(cx, IDS[kind], f["body"]), "chunk"))

    @contract(["C01", "C02"], kind + ".read_chunk", [q + ".read_chunk"])
    def read(cx):
        """reading the body of the chunk gives back the vocabulary and stops right behind it"""
        f = sym_vocab(cx, kind)
        tail = (E(Opaque_("tail", None, cx.int("tail", 0))),)
        inf = FileR(cx.e, f["body"] + tail, pos0=cx.int("pos", 0))
        k, r = cx.outcome(q + ".read_chunk", inf)
        if k == "raise":
            cx.fail("reads what was written", "raises %r" % (r,))
            return
        vocab_eq(cx, r, f)
        cx.ensure("stops at the end of the chunk", inf.c[2] == inf.pos0 + toks_len(cx.e, f["body"]))

    @contract("C03", kind + ".read_chunk.cut", [q + ".read_chunk"])
    def cut(cx):
        """a file that ends before the end of the chunk is rejected"""
        f = sym_vocab(cx, kind)
        pos = cx.int("pos", 0)
        c = cx.int("cut", 0)
        cx.requires(c < pos + toks_len(cx.e, f["body"]))
        inf = FileR(cx.e, f["body"], cut=c, pos0=pos)
        k, r = cx.outcome(q + ".read_chunk", inf)
        if k == "return":
            cx.fail("a cut chunk is rejected", "returns although the file ends inside the chunk")
        else:
            cx.record("a cut chunk is rejected", None)


for _k in KINDS:
    vocab_chunk(_k)
