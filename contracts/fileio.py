"""Contracts of the file header, chunk framing and the loaders (C01-C04)."""
from contract import contract
from terms import *
from values import *
import prove
import files
from files import IntT, FltT, Utf8, PadT, Blob, Short, Opaque_, FileR, FileW, PathV, toks_len, norm_toks
from chunks import IDS, IO, u32, u64, chunk
from storage import rejected

MAGIC = int.from_bytes(b"FiFu", "little")


def header(n, ids):
    """published layout: magic, version 0, number of chunks, their identifiers"""
    return (E(b"FiFu"), u32(0), u32(n)) + tuple(ids)


def sym_ids(cx):
    n = cx.int("n_chunks", 1, 2 ** 32 - 1)
    f = cx.func("chunk_id", I, I)
    q = z3.Const("q_i", I)
    cx.requires(z3.ForAll([q], z3.And(f(q) >= 0, f(q) < 2 ** 32), patterns=[f(q)]))
    k = cx.e.T.fresh("k")
    return n, f, cx.list(n, lambda i: f(i)), (For(k, n, [u32(f(k))]),)


@contract(["C01", "C02"], "Header.write_chunk", [IO + ":Header.write_chunk"])
def h_write(cx):
    """writes magic, version, number of chunks and the identifiers in order"""
    n, f, ids, toks = sym_ids(cx)
    out = FileW(cx.e, 0)
    cx.method(cx.call(IO + ":Header", ids), "write_chunk", out)
    cx.record("bytes written are the header", files.prove_bytes(cx.e, out.c, header(n, toks), "header"))


@contract(["C01", "C02"], "Header.read_chunk", [IO + ":Header.read_chunk"])
def h_read(cx):
    """reading a header gives the identifiers in order and stops right behind it"""
    n, f, ids, toks = sym_ids(cx)
    h = header(n, toks)
    inf = FileR(cx.e, h + (E(Opaque_("tail", None, cx.int("tail", 0))),))
    r = cx.call(IO + ":Header.read_chunk", inf)
    cx.ensure_eq("identifiers are kept", cx.e.getattr(r, "chunk_ids"), ids)
    cx.ensure("stops at the end of the header", inf.c[2] == toks_len(cx.e, h))


@contract("C03", "Header.read_chunk.cut", [IO + ":Header.read_chunk"])
def h_cut(cx):
    """a file that ends inside the header is rejected"""
    n, f, ids, toks = sym_ids(cx)
    h = header(n, toks)
    c = cx.int("cut", 0)
    cx.requires(c < toks_len(cx.e, h))
    rejected(cx, "a cut header is rejected", cx.outcome(IO + ":Header.read_chunk", FileR(cx.e, h, cut=c)))


@contract("C03", "Header.read_chunk.foreign", [IO + ":Header.read_chunk"])
def h_foreign(cx):
    """any other magic or version is rejected"""
    n, f, ids, toks = sym_ids(cx)
    m, v = cx.int("magic", 0, 2 ** 32 - 1), cx.int("version", 0, 2 ** 32 - 1)
    cx.requires(z3.Or(m != MAGIC, v != 0))
    rejected(cx, "another magic or version is rejected", cx.outcome(IO + ":Header.read_chunk", FileR(cx.e, (u32(m), u32(v), u32(n)) + toks)))


# ------------------------------------------------------------------ framing
def sym_chunks(cx):
    """arbitrary sequence of chunks: (n, id, len, tokens)"""
    n = cx.int("n_chunks", 0, 2 ** 32 - 1)
    f, ln = cx.func("chunk_id", I, I), cx.func("chunk_len", I, I)
    q = z3.Const("q_i", I)
    cx.requires(z3.ForAll([q], z3.And(f(q) >= 0, f(q) <= 8), patterns=[f(q)]))
    cx.requires(z3.ForAll([q], z3.And(ln(q) >= 0, ln(q) < 2 ** 63), patterns=[ln(q)]))
    k = cx.e.T.fresh("k")
    return n, f, ln, For(k, n, [u32(f(k)), u64(ln(k)), E(Opaque_("body", None, ln(k)))])


@contract("C02", "find_chunk", [IO + ":find_chunk", IO + ":_read_chunk_header"])
def find(cx):
    """for every sequence of chunks: finds the first chunk of a wanted kind, by skipping the stated lengths, and None if there is none"""
    nh, _, _, toks = sym_ids(cx)
    n, f, ln, chunks = sym_chunks(cx)
    h = header(nh, toks)
    inf = FileR(cx.e, h + (chunks,))
    cid = cx.fn(IO + ":ChunkIdentifier")
    w = [cx.int("want%d" % i, 0, 8) for i in range(cx.choose(1, 2, 4))]
    want = Lst(cx.e, tuple(E(cx.call(cid, x)) for x in w))
    if cx.choose(True, False):
        inf.skip(cx.e, iv(4))          # from any position
    r = cx.call(IO + ":find_chunk", inf, want)
    i = cx.int("i", 0)
    isin = lambda t: z3.Or(*[t == x for x in w])
    if r is None:
        cx.requires(i < n)
        cx.ensure("None only if there is no such chunk", z3.Not(isin(f(i))))
        return
    rid = cx.e.int_t(r)
    cx.ensure("the chunk found is wanted", isin(rid))
    j = inf.c[2]
    # position: behind the header of some chunk j with that identifier, and no earlier one is wanted
    g = cx.e.loop_exits[-1] if cx.e.loop_exits else None
    if g is None:
        cx.record("stops behind its chunk header", prove.Why("undecided", "no exit of the search loop"))
        return
    kk = cx.e.T.fresh("k")
    start = cx.e.T.sum(kk, g, 12 + ln(kk))
    cx.ensure("stops behind its chunk header", z3.And(g >= 0, g < n, f(g) == rid, inf.c[2] == toks_len(cx.e, h) + start + 12))
    cx.requires(z3.And(i < g, i >= 0))
    cx.ensure("no earlier chunk is wanted", z3.Not(isin(f(i))))


# ------------------------------------------------- components under contract
from chunks import sym_vocab, vocab_eq
from vocab import KINDS
from storage import ND, QA, NM, MD, sym_nd, sym_quant, sym_norms, sym_meta, sym_arr

CLS = dict([(k, (KINDS[k][0] + ":" + k, IDS[k])) for k in KINDS] + [("NdArray", (ND + ":NdArray", 2)), ("QuantizedArray", (QA + ":QuantizedArray", 4)), ("Norms", (NM + ":Norms", 6)), ("Metadata", (MD + ":Metadata", 5))])


class Comp:
    """a component seen through its contracts: its chunk is (identifier, exact length n, body of n bytes); the last byte that is
    not padding is byte m of the body"""

    def __init__(self, cx, kind, v):
        self.kind, self.v, self.id = kind, v, CLS[kind][1]
        self.n, self.m = cx.int("len_" + kind, 0, 2 ** 62), cx.int("content_" + kind, 0)
        cx.requires(self.m <= self.n)
        if kind not in ("NdArray", "QuantizedArray", "Norms"):
            cx.requires(self.m == self.n)
        if kind != "Metadata":
            cx.requires(self.m > 0)

    def toks(self):
        return (u32(self.id), u64(self.n), E(Opaque_(self.kind, self, self.n)))


def use_comps(cx, comps):
    """write_chunk / read_chunk / mmap_chunk of the components are replaced by their contracts (proved under the same names)"""
    def write(e, v):
        for c in comps:
            if c.v is v["self"]:
                v["file"].put(e, c.toks())
                return None
        return NotImplemented

    def reader(kind):
        def read(e, v):
            f = v["file"]
            if not isinstance(f, FileR):
                return NotImplemented
            done, rest, pos = f.c
            if done == "eof":
                # nothing there: the chunk is not complete unless it is empty
                if kind == "Metadata" and e.nd():
                    return NotImplemented
                e.raise_("ValueError", "cut chunk")
            if not rest or not isinstance(rest[0], E) or not isinstance(rest[0].v, Opaque_):
                return NotImplemented
            o = rest[0].v
            if o.what != kind or o.val is None:
                # the body of another chunk: anything may happen
                if e.nd():
                    e.raise_("ValueError", "not such a chunk")
                return NotImplemented
            c = o.val
            if f.cut is not None:
                if e.branch(f.cut < pos + c.m):
                    e.raise_("ValueError", "cut chunk")
                if e.branch(f.cut < pos + c.n):
                    f.c = ("eof", (), z3.simplify(pos + c.n))
                    return c.v
            f.c = (done + (rest[0],), rest[1:], z3.simplify(pos + c.n))
            return c.v
        return read
    for kind, (q, _) in CLS.items():
        for m, f in (("write_chunk", write), ("read_chunk", reader(kind)), ("mmap_chunk", reader(kind))):
            if m == "mmap_chunk" and kind not in ("NdArray", "QuantizedArray"):
                continue
            fn = cx.fn(q + "." + m)
            fn = getattr(fn, "f", getattr(fn, "fn", fn))
            cx.e.summaries[fn.qual] = f


def sym_comp(cx, kind):
    if kind in KINDS:
        v = sym_vocab(cx, kind)["v"]
    elif kind == "NdArray":
        v = sym_nd(cx, "=")[0]
    elif kind == "QuantizedArray":
        v = sym_quant(cx, "=", P=False, N=False)["v"]
    elif kind == "Norms":
        v = sym_norms(cx, "=")[0]
    else:
        v = sym_meta(cx)[0]
    return Comp(cx, kind, v)


LOADERS = {"SimpleVocab": ("finalfusion.vocab:load_vocab", KINDS["SimpleVocab"][0] + ":load_simple_vocab"),
           "FinalfusionBucketVocab": ("finalfusion.vocab:load_vocab", "finalfusion.vocab.subword:load_finalfusion_bucket_vocab"),
           "FastTextVocab": ("finalfusion.vocab:load_vocab", "finalfusion.vocab.subword:load_fasttext_vocab"),
           "ExplicitVocab": ("finalfusion.vocab:load_vocab", "finalfusion.vocab.subword:load_explicit_vocab"),
           "NdArray": ("finalfusion.storage:load_storage", ND + ":load_ndarray"),
           "QuantizedArray": ("finalfusion.storage:load_storage", QA + ":load_quantized_array"),
           "Norms": (NM + ":load_norms",), "Metadata": (MD + ":load_metadata",)}
GENERIC = {"finalfusion.vocab:load_vocab": (1, 3, 7, 8), "finalfusion.storage:load_storage": (2, 4)}


def loader(kind):
    alls = LOADERS[kind]

    def setup(cx):
        ld = cx.choose(*alls)
        c = sym_comp(cx, kind)
        use_comps(cx, [c])
        nh, _, _, toks = sym_ids(cx)
        n, f, ln, before = sym_chunks(cx)
        q = z3.Const("q_j", I)
        ids = GENERIC.get(ld, (c.id,))
        cx.requires(z3.ForAll([q], z3.And(*[f(q) != x for x in ids]), patterns=[f(q)]))
        kw = {"mmap": cx.choose(True, False)} if kind in ("NdArray", "QuantizedArray") else {}
        return ld, c, header(nh, toks), before, kw

    @contract(["C01", "C02", "C04"] if kind in ("NdArray", "QuantizedArray") else ["C01", "C02"], "load." + kind, [x for x in alls])
    def load(cx):
        """loading the component from a file gives the component written, whatever other chunks come before and after it"""
        ld, c, h, before, kw = setup(cx)
        p = PathV(cx.e, h + (before,) + c.toks() + (E(Opaque_("tail", None, cx.int("tail", 0))),))
        r = cx.call(ld, p, **kw)
        cx.record("is the component in the file", None if r is c.v else prove.Why("refuted", "got %r" % (r,)))

    @contract("C03", "load." + kind + ".cut", [x for x in alls])
    def cut(cx):
        """a file that ends before the last byte of the component is rejected"""
        ld, c, h, before, kw = setup(cx)
        cut = cx.int("cut", 0)
        content = h + (before,) + c.toks()
        cx.requires(cut < toks_len(cx.e, content) - c.n + c.m)
        rejected(cx, "a cut file is rejected", cx.outcome(ld, PathV(cx.e, content, cut), **kw))

    @contract("C02", "load." + kind + ".missing", [x for x in alls])
    def missing(cx):
        """a file without such a chunk is reported with a ValueError"""
        ld, c, h, before, kw = setup(cx)
        k, r = cx.outcome(ld, PathV(cx.e, h + (before,)), **kw)
        if k == "return":
            cx.fail("missing component is an error", "returns %r" % (r,))
        else:
            cx.record("missing component is an error", None if r.cls is cx.e.B["ValueError"] else prove.Why("refuted", "raises %r" % (r,)))

    @contract(["C01", "C02"], "write." + kind, [IO + ":Chunk.write", CLS[kind][0] + ".chunk_identifier"])
    def write(cx):
        """a component written on its own is a file with a header listing just it, and its chunk"""
        c = sym_comp(cx, kind)
        use_comps(cx, [c])
        p = PathV(cx.e)
        cx.method(c.v, "write", p)
        cx.record("file is header and chunk", files.prove_bytes(cx.e, p.current(cx.e) or (), header(1, (u32(c.id),)) + c.toks(), "file"))


for _k in LOADERS:
    loader(_k)
