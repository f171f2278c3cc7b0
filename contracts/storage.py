"""Contracts of the matrix, norms and metadata chunks (C01-C04)."""
from contract import contract
from terms import *
from values import *
import prove
import arrays
import files
from arrays import AX, AData, Arr, mk
from files import IntT, FltT, Utf8, PadT, Blob, Short, Opaque_, FileR, FileW, PathV, toks_len, norm_toks
from chunks import IDS, u32, u64, chunk

ND = "finalfusion.storage.ndarray"
QA = "finalfusion.storage.quantized"
NM = "finalfusion.norms"
MD = "finalfusion.metadata"


def sym_arr(cx, hint, shape, dt="float32", cls=None, bo="="):
    f = cx.func(hint, *([I] * len(shape)), arrays.sort_of_dt(dt))
    if dt == "uint8":
        q = [z3.Const("q_%d" % i, I) for i in range(len(shape))]
        cx.requires(z3.ForAll(q, z3.And(f(*q) >= 0, f(*q) < 256), patterns=[f(*q)]))
    a = mk(cx.e, shape, f(*AX[:len(shape)]), dt, cls, bo=bo)
    return a


def pad4(pos):
    return 4 - pos % 4


def sym_nd(cx, bo=None, rows=None):
    """(NdArray, rows, cols, content)"""
    rows, cols = rows if rows is not None else cx.int("rows", 0, 2 ** 40), cx.int("cols", 0, 2 ** 20)
    bo = bo or cx.choose("=", ">")
    a = sym_arr(cx, "M", [rows, cols], bo=bo)
    d = a.data()
    return cx.call(ND + ":NdArray", a), rows, cols, d


def nd_body(cx, pos, rows, cols, d):
    """published layout of the matrix chunk; pos: position behind the chunk header"""
    return (u64(rows), u32(cols), u32(10), E(PadT(pad4(pos + 16))), E(Blob(d)))


def empty(d):
    return z3.Or(*[s == 0 for s in d.shape])


@contract(["C01", "C02", "C16"], "NdArray.write_chunk", [ND + ":NdArray.write_chunk", ND + ":NdArray.__new__", "finalfusion.io:_serialize_array_as_le", "finalfusion.io:_pad_float32"])
def nd_write(cx):
    """writes exactly the chunk: identifier, exact length, shape, element type, padding to 4 bytes, little-endian matrix"""
    m, rows, cols, d = sym_nd(cx)
    pos = cx.int("pos", 0)
    out = FileW(cx.e, pos)
    snap = cx.heap()
    cx.method(m, "write_chunk", out)
    cx.frame("writing changes nothing", snap)
    cx.record("bytes written are the chunk", files.prove_bytes(cx.e, out.c, chunk(cx, 2, nd_body(cx, pos + 12, rows, cols, d)), "chunk"))


@contract(["C01", "C02"], "NdArray.read_chunk", [ND + ":NdArray.read_chunk", ND + ":NdArray._read_array_header", "finalfusion.io:_read_array_as_native"])
def nd_read(cx):
    """reading the chunk body gives back the matrix and stops right behind it"""
    m, rows, cols, d = sym_nd(cx, "=")
    pos = cx.int("pos", 0)
    body = nd_body(cx, pos, rows, cols, d)
    inf = FileR(cx.e, body + (E(Opaque_("tail", None, cx.int("tail", 0))),), pos0=pos)
    r = cx.call(ND + ":NdArray.read_chunk", inf)
    nd_same(cx, r, d)
    cx.ensure("stops at the end of the chunk", inf.c[2] == pos + toks_len(cx.e, body))


def nd_same(cx, r, d, pre=""):
    if not isinstance(r, Arr) or r.cls_.name != "NdArray":
        cx.record(pre + "kind is kept", prove.Why("refuted", "got %r" % (r,)))
        return
    cx.record(pre + "kind is kept", None)
    cx.record(pre + "matrix is kept", r.values().prove_eq(cx.e, d, "matrix"))


@contract("C03", "NdArray.read_chunk.cut", [ND + ":NdArray.read_chunk"])
def nd_cut(cx):
    """a file that lacks any byte of the matrix or its shape is rejected"""
    mm = cx.choose(False, True)
    m, rows, cols, d = sym_nd(cx, "=")
    pos = cx.int("pos", 0)
    body = nd_body(cx, pos, rows, cols, d)
    c = cx.int("cut", 0)
    if mm:
        cx.requires(z3.And(rows > 0, cols > 0))
    cx.requires(c < z3.If(empty(d), pos + 16, pos + toks_len(cx.e, body)))
    p = PathV(cx.e, (E(Opaque_("prefix", None, pos)),) + body, c)
    inf = FileR(cx.e, body, cut=c, pos0=pos, name=p)
    k, r = cx.outcome(ND + ":NdArray." + ("mmap_chunk" if mm else "read_chunk"), inf)
    if k == "return":
        cx.fail("a cut chunk is rejected", "returns although the file ends inside the chunk")
    else:
        cx.record("a cut chunk is rejected", None)


@contract("C03", "NdArray.read_chunk.type", [ND + ":NdArray._read_array_header"])
def nd_type(cx):
    """any element type other than f32 is rejected"""
    mm = cx.choose(False, True)
    m, rows, cols, d = sym_nd(cx, "=")
    pos, t = cx.int("pos", 0), cx.int("type", 0, 2 ** 32 - 1)
    cx.requires(t != 10)
    body = (u64(rows), u32(cols), u32(t), E(PadT(pad4(pos + 16))), E(Blob(d)))
    inf = FileR(cx.e, body, pos0=pos, name=PathV(cx.e, (E(Opaque_("prefix", None, pos)),) + body))
    k, r = cx.outcome(ND + ":NdArray." + ("mmap_chunk" if mm else "read_chunk"), inf)
    if k == "return":
        cx.fail("another element type is rejected", "returns a matrix")
    else:
        cx.record("another element type is rejected", None)


@contract("C04", "NdArray.mmap_chunk", [ND + ":NdArray.mmap_chunk", ND + ":NdArray.read_chunk"])
def nd_mmap(cx):
    """the memory-mapped matrix equals the one in the file, the file is left right behind the chunk, as by read_chunk"""
    m, rows, cols, d = sym_nd(cx, "=")
    cx.requires(z3.And(rows > 0, cols > 0))
    pos = cx.int("pos", 0)
    body = nd_body(cx, pos, rows, cols, d)
    tail = (E(Opaque_("tail", None, cx.int("tail", 0))),)
    p = PathV(cx.e, (E(Opaque_("prefix", None, pos)),) + body + tail)
    via = cx.choose("mmap_chunk", "load")
    f1 = FileR(cx.e, body + tail, pos0=pos, name=p)
    c = cx.fn(ND + ":NdArray")
    r1 = cx.method(c, via, f1, *([True] if via == "load" else []))
    f2 = FileR(cx.e, body + tail, pos0=pos, name=p)
    r2 = cx.method(c, ("read_chunk" if via == "mmap_chunk" else "load"), f2)
    nd_same(cx, r1, d, "mapped: ")
    nd_same(cx, r2, d, "in memory: ")
    cx.ensure("both leave the file right behind the chunk", z3.And(f1.c[2] == pos + toks_len(cx.e, body), f2.c[2] == f1.c[2]))


# ------------------------------------------------------------------ norms
def sym_norms(cx, bo=None, n=None):
    n = n if n is not None else cx.int("n", 0, 2 ** 40)
    a = sym_arr(cx, "norm", [n], bo=bo or cx.choose("=", ">"))
    d = a.data()
    return cx.call(NM + ":Norms", a), n, d


def norms_body(pos, n, d, ty=10):
    return (u64(n), u32(ty), E(PadT(pad4(pos + 12))), E(Blob(d)))


@contract(["C01", "C02", "C16"], "Norms.write_chunk", [NM + ":Norms.write_chunk", NM + ":Norms.__new__"])
def norms_write(cx):
    """writes exactly the chunk: identifier, exact length, count, element type, padding to 4 bytes, little-endian norms"""
    m, n, d = sym_norms(cx)
    pos = cx.int("pos", 0)
    out = FileW(cx.e, pos)
    snap = cx.heap()
    cx.method(m, "write_chunk", out)
    cx.frame("writing changes nothing", snap)
    cx.record("bytes written are the chunk", files.prove_bytes(cx.e, out.c, chunk(cx, 6, norms_body(pos + 12, n, d)), "chunk"))


def norms_same(cx, r, d, pre=""):
    if not isinstance(r, Arr) or r.cls_.name != "Norms":
        cx.record(pre + "norms are norms", prove.Why("refuted", "got %r" % (r,)))
        return
    cx.record(pre + "norms are norms", None)
    cx.record(pre + "norms are kept", r.values().prove_eq(cx.e, d, "norms"))


@contract(["C01", "C02"], "Norms.read_chunk", [NM + ":Norms.read_chunk"])
def norms_read(cx):
    """reading the chunk body gives back the norms and stops right behind it"""
    m, n, d = sym_norms(cx, "=")
    pos = cx.int("pos", 0)
    body = norms_body(pos, n, d)
    inf = FileR(cx.e, body + (E(Opaque_("tail", None, cx.int("tail", 0))),), pos0=pos)
    r = cx.call(NM + ":Norms.read_chunk", inf)
    norms_same(cx, r, d)
    cx.ensure("stops at the end of the chunk", inf.c[2] == pos + toks_len(cx.e, body))


@contract("C03", "Norms.read_chunk.cut", [NM + ":Norms.read_chunk"])
def norms_cut(cx):
    """a file that lacks any byte of the norms or their count is rejected"""
    m, n, d = sym_norms(cx, "=")
    pos, c = cx.int("pos", 0), cx.int("cut", 0)
    body = norms_body(pos, n, d)
    cx.requires(c < z3.If(n == 0, pos + 12, pos + toks_len(cx.e, body)))
    rejected(cx, "a cut chunk is rejected", cx.outcome(NM + ":Norms.read_chunk", FileR(cx.e, body, cut=c, pos0=pos)))


def rejected(cx, name, kr):
    if kr[0] == "return":
        cx.fail(name, "returns %s" % str(kr[1])[:80])
    else:
        cx.record(name, None)


@contract("C03", "Norms.read_chunk.type", [NM + ":Norms.read_chunk"])
def norms_type(cx):
    """any element type other than f32 is rejected"""
    m, n, d = sym_norms(cx, "=")
    pos, t = cx.int("pos", 0), cx.int("type", 0, 2 ** 32 - 1)
    cx.requires(t != 10)
    rejected(cx, "another element type is rejected", cx.outcome(NM + ":Norms.read_chunk", FileR(cx.e, norms_body(pos, n, d, t), pos0=pos)))


# --------------------------------------------------------------- quantized
def sym_quant(cx, bo=None, nonempty=False, n=None, P=None, N=None):
    n0, ql, ds, nc = cx.int("n", 1 if nonempty else 0, 2 ** 40), cx.int("qlen", 1, 2 ** 15), cx.int("dsub", 0, 2 ** 15), cx.int("ncent", 0, 256)
    n = n0 if n is None else n
    P = cx.choose(True, False) if P is None else P
    N = cx.choose(True, False) if N is None else N
    bo = bo or cx.choose("=", ">")
    qz = sym_arr(cx, "Q", [ql, nc, ds], bo=bo)
    pr = sym_arr(cx, "P", [ql * ds, ql * ds], bo=bo) if P else None
    nm = sym_arr(cx, "norm", [n], bo=bo) if N else None
    codes = sym_arr(cx, "codes", [n, ql], "uint8")
    info = dict(n=n, ql=ql, ds=ds, nc=nc, Q=qz.data(), P=pr and pr.data(), N=nm and nm.data(), C=codes.data())
    pq = cx.call(QA + ":PQ", qz, pr)
    info["v"] = cx.call(QA + ":QuantizedArray", pq, codes, nm)
    return info


def quant_body(pos, q, t1=1, t2=10):
    r = (u32(1 if q["P"] is not None else 0), u32(1 if q["N"] is not None else 0), u32(q["ql"]), u32(q["ql"] * q["ds"]), u32(q["nc"]), u64(q["n"]), u32(t1), u32(t2), E(PadT(pad4(pos + 36))))
    for x in ("P", "Q", "N", "C"):
        if q[x] is not None:
            r += (E(Blob(q[x])),)
    return r


@contract(["C01", "C02", "C16"], "QuantizedArray.write_chunk", [QA + ":QuantizedArray.write_chunk", QA + ":QuantizedArray.__init__", QA + ":PQ.__init__"])
def q_write(cx):
    """writes exactly the chunk: identifier, exact length, header fields, padding to 4 bytes, projection, quantizers, norms, codes"""
    q = sym_quant(cx)
    pos = cx.int("pos", 0)
    out = FileW(cx.e, pos)
    snap = cx.heap()
    cx.method(q["v"], "write_chunk", out)
    cx.frame("writing changes nothing", snap)
    cx.record("bytes written are the chunk", files.prove_bytes(cx.e, out.c, chunk(cx, 4, quant_body(pos + 12, q)), "chunk"))


def quant_same(cx, r, q, pre=""):
    e = cx.e
    if not isinstance(r, Obj) or r.cls.name != "QuantizedArray":
        cx.record(pre + "kind is kept", prove.Why("refuted", "got %r" % (r,)))
        return
    cx.record(pre + "kind is kept", None)
    pq = e.getattr(r, "quantizer")
    for x, v, what in (("Q", e.getattr(pq, "subquantizers"), "quantizers are kept"), ("P", e.getattr(pq, "projection"), "projection is kept"),
                       ("N", e.getattr(r, "_norms"), "norms are kept"), ("C", e.getattr(r, "_quantized_embeddings"), "codes are kept")):
        if q[x] is None or not isinstance(v, Arr):
            cx.record(pre + what, None if q[x] is None and v is None else prove.Why("refuted", "%s: %r versus %r" % (what, v, q[x])))
        else:
            cx.record(pre + what, v.values().prove_eq(e, q[x], what))


@contract(["C01", "C02"], "QuantizedArray.read_chunk", [QA + ":QuantizedArray.read_chunk", QA + ":QuantizedArray._read_quantized_header"])
def q_read(cx):
    """reading the chunk body gives back the quantized matrix and stops right behind it"""
    q = sym_quant(cx, "=")
    pos = cx.int("pos", 0)
    body = quant_body(pos, q)
    inf = FileR(cx.e, body + (E(Opaque_("tail", None, cx.int("tail", 0))),), pos0=pos)
    r = cx.call(QA + ":QuantizedArray.read_chunk", inf)
    quant_same(cx, r, q)
    cx.ensure("stops at the end of the chunk", inf.c[2] == pos + toks_len(cx.e, body))


@contract("C03", "QuantizedArray.read_chunk.cut", [QA + ":QuantizedArray.read_chunk", QA + ":QuantizedArray._read_quantized_header"])
def q_cut(cx):
    """a file that lacks any non-padding byte of the chunk is rejected"""
    mm = cx.choose(False, True)
    q = sym_quant(cx, "=", mm)
    pos, c = cx.int("pos", 0), cx.int("cut", 0)
    body = quant_body(pos, q)
    data = [toks_len(cx.e, (t,)) for t in body[9:]]
    cx.requires(c < z3.If(z3.And(*[d == 0 for d in data]), pos + 36, pos + toks_len(cx.e, body)))
    p = PathV(cx.e, (E(Opaque_("prefix", None, pos)),) + body, c)
    rejected(cx, "a cut chunk is rejected", cx.outcome(QA + ":QuantizedArray." + ("mmap_chunk" if mm else "read_chunk"), FileR(cx.e, body, cut=c, pos0=pos, name=p)))


@contract("C03", "QuantizedArray.read_chunk.type", [QA + ":QuantizedArray._read_quantized_header"])
def q_type(cx):
    """any other code or centroid type is rejected"""
    mm = cx.choose(False, True)
    q = sym_quant(cx, "=", mm)
    pos, t1, t2 = cx.int("pos", 0), cx.int("t1", 0, 2 ** 32 - 1), cx.int("t2", 0, 2 ** 32 - 1)
    cx.requires(z3.Or(t1 != 1, t2 != 10))
    body = quant_body(pos, q, t1, t2)
    p = PathV(cx.e, (E(Opaque_("prefix", None, pos)),) + body)
    rejected(cx, "another element type is rejected", cx.outcome(QA + ":QuantizedArray." + ("mmap_chunk" if mm else "read_chunk"), FileR(cx.e, body, pos0=pos, name=p)))


@contract("C04", "QuantizedArray.mmap_chunk", [QA + ":QuantizedArray.mmap_chunk", QA + ":QuantizedArray.read_chunk"])
def q_mmap(cx):
    """the memory-mapped codes (and everything read with them) equal the file's, which is left right behind the chunk, as by read_chunk"""
    q = sym_quant(cx, "=", True)
    pos = cx.int("pos", 0)
    body = quant_body(pos, q)
    tail = (E(Opaque_("tail", None, cx.int("tail", 0))),)
    p = PathV(cx.e, (E(Opaque_("prefix", None, pos)),) + body + tail)
    via = cx.choose("mmap_chunk", "load")
    c = cx.fn(QA + ":QuantizedArray")
    f1 = FileR(cx.e, body + tail, pos0=pos, name=p)
    r1 = cx.method(c, via, f1, *([True] if via == "load" else []))
    f2 = FileR(cx.e, body + tail, pos0=pos, name=p)
    r2 = cx.method(c, ("read_chunk" if via == "mmap_chunk" else "load"), f2)
    quant_same(cx, r1, q, "mapped: ")
    quant_same(cx, r2, q, "in memory: ")
    cx.ensure("both leave the file right behind the chunk", z3.And(f1.c[2] == pos + toks_len(cx.e, body), f2.c[2] == f1.c[2]))


# ---------------------------------------------------------------- metadata
def sym_meta(cx):
    """arbitrary metadata: (Metadata, plain dict of the same content)"""
    has, val = cx.func("has_meta", Str, B), cx.func("val_meta", Str, Opq)
    card = cx.int("card_meta", 0)
    q = z3.Const("q_dk", Str)
    cx.requires(z3.ForAll([q], z3.Implies(has(q), card > 0), patterns=[has(q)]))
    d = Dct(cx.e, DC(DFun(lambda k: has(cx.e.str_t(k)), lambda k: val(cx.e.str_t(k)), card, None, str(has)), ()))
    m = cx.call(MD + ":Metadata", d)
    return m, d


def meta_body(cx, m):
    t = cx.e.str_t(cx.e.ext["toml"]["dumps"].f(cx.e, [m], {}))
    cx.requires(z3.And(files.ublen(cx.e, t) >= 0, files.ublen(cx.e, t) < 2 ** 62))
    return (E(Utf8(t)),)


def meta_same(cx, r, d, pre=""):
    if not isinstance(r, Dct) or getattr(r, "cls", None) is not cx.fn(MD + ":Metadata"):
        cx.record(pre + "metadata is metadata", prove.Why("refuted", "got %r" % (r,)))
        return
    cx.record(pre + "metadata is metadata", None)
    cx.record(pre + "metadata is kept", cx.e.prove_dict(r, d, "metadata"))


@contract(["C01", "C02", "C16"], "Metadata.write_chunk", [MD + ":Metadata.write_chunk"])
def meta_write(cx):
    """writes exactly the chunk: identifier, exact length, TOML text in UTF-8"""
    m, d = sym_meta(cx)
    pos = cx.int("pos", 0)
    body = meta_body(cx, m)
    out = FileW(cx.e, pos)
    snap = cx.heap()
    cx.method(m, "write_chunk", out)
    cx.frame("writing changes nothing", snap)
    cx.record("bytes written are the chunk", files.prove_bytes(cx.e, out.c, chunk(cx, 5, body), "chunk"))


def behind_header(cx, content, pos, cut=None):
    """the file right behind the chunk header that starts at pos, as find_chunk leaves it"""
    inf = FileR(cx.e, content, pos0=pos, cut=cut)
    inf.skip(cx.e, iv(12))
    return inf


@contract(["C01", "C02"], "Metadata.read_chunk", [MD + ":Metadata.read_chunk"])
def meta_read(cx):
    """reading the chunk gives back the metadata and stops right behind it"""
    m, d = sym_meta(cx)
    pos = cx.int("pos", 0)
    c = chunk(cx, 5, meta_body(cx, m))
    inf = behind_header(cx, c + (E(Opaque_("tail", None, cx.int("tail", 0))),), pos)
    r = cx.call(MD + ":Metadata.read_chunk", inf)
    meta_same(cx, r, d)
    cx.ensure("stops at the end of the chunk", inf.c[2] == pos + toks_len(cx.e, c))


@contract("C03", "Metadata.read_chunk.cut", [MD + ":Metadata.read_chunk"])
def meta_cut(cx):
    """a file that ends inside the metadata is rejected"""
    m, d = sym_meta(cx)
    pos, cut = cx.int("pos", 0), cx.int("cut", 0)
    c = chunk(cx, 5, meta_body(cx, m))
    cx.requires(z3.And(cut >= pos + 12, cut < pos + toks_len(cx.e, c)))
    rejected(cx, "a cut chunk is rejected", cx.outcome(MD + ":Metadata.read_chunk", behind_header(cx, c, pos, cut)))
