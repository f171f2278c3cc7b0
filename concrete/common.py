"""Generators, independent reference implementations and comparison helpers.

Everything here is written from the file-format descriptions and the property
statements; nothing is imported from the package under test except through its
public API (to build and observe values).
"""
import math, os, random, struct, tempfile, shutil, warnings
import numpy as np
import toml

warnings.simplefilter("ignore")
np.seterr(all="ignore")

# ---------------------------------------------------------------- generators
def harvest():
    """characters and numbers that occur as literals in the source under test: inputs around them are worth trying"""
    import re, sys, glob, ast
    chars, ints, floats = set(), set(), set()
    root = next((os.path.join(d, "finalfusion") for d in sys.path if os.path.isdir(os.path.join(d, "finalfusion"))), None)
    for f in glob.glob(root + "/**/*.py*", recursive=True) if root else ():
        if not f.endswith((".py", ".pyx")):
            continue
        t = open(f, encoding="utf-8", errors="replace").read()
        t = re.sub(r'""".*?"""', "", t, flags=re.S)
        t = re.sub(r"#.*", "", t)
        for m in re.finditer(r"'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\"", t):
            try:
                v = ast.literal_eval(m.group())
            except (SyntaxError, ValueError):
                continue
            chars.update(c for c in v if not c.isalnum() and c not in WS)
        for m in re.finditer(r"(?<![\w.])(?:\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)(?![\w.])", t):
            floats.add(float(m.group()))
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", t):
            ints.add(int(m.group()))
    return sorted(chars), sorted(i for i in ints if i < 2 ** 16), sorted(x for x in floats if 1e-12 < x < 1e12)


WS = " \t\n\r\x0b\x0c"
H_CHARS, H_INTS, H_FLOATS = harvest()
ALPH = ["abcde", "abAB", "ÄäSsß", "abcdefghijklmnopqrstuvwxyz", "aébß", "日本語a", "😀a😁b", "<>ab", "a\u00a0b\u2003", "äöü\u0301", "\u07ff\u0800\uffff\U00010000\U0010ffffa", "a'\"\\-_."]
if [c for c in H_CHARS if not c.isascii()]:
    ALPH.append("ab" + "".join(c for c in H_CHARS if not c.isascii()))


def gen_word(r, maxlen=8, minlen=0, ws=False, ban=""):
    alph = r.choice(ALPH)
    n = r.choice([minlen, 1, 2, 3, 4, 5, 6, 7, maxlen, r.randint(minlen, maxlen)])
    n = max(minlen, n)
    if r.random() < .03:
        n = max(minlen, min(40, r.choice(H_INTS or [3]) + r.randint(-1, 2)))
        alph += "".join(r.choice(H_CHARS or ["a"]) for _ in range(2))
    w = "".join(r.choice(alph) for _ in range(n))
    if ws and r.random() < .15:
        i = r.randint(0, len(w))
        w = w[:i] + r.choice(" \t\n\r\0") + w[i:]
    return "".join(c for c in w if c not in ban)


def gen_words(r, n=None, **kw):
    if n is None:
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12])
    out = []
    tries = 0
    while len(out) < n and tries < 20 * n + 20:
        tries += 1
        w = gen_word(r, **kw)
        if w not in out:
            out.append(w)
    return out


def gen_range(r):
    a = r.choice([1, 1, 2, 2, 3, 3, 3, 4, 5])
    return a, a + r.choice([0, 1, 1, 2, 3, 3, 5])


def f32(x):
    return float(np.float32(x))


def gen_float(r):
    k = r.random()
    if k < .5:
        return f32(r.uniform(-2, 2))
    if k < .8:
        return float(r.choice([-3, -2, -1, 1, 2, 3, .5, -.25]))
    if k < .88:
        return f32(r.uniform(-1, 1) * 10 ** r.randint(-3, 3))
    if k < .9:
        return f32(r.choice(H_FLOATS or [1.0]) * r.choice([1, -1, .5, 2]))
    return f32(r.gauss(0, 1))


def gen_norm(r):
    if r.random() < .12:
        return f32(r.choice([10 ** r.uniform(-8, 4), r.choice(H_FLOATS or [1.0]) * r.choice([.5, 1, 2])])) or 1.0
    return abs(gen_float(r)) + .25


def gen_matrix(r, rows, cols, nonzero=False):
    m = []
    for _ in range(rows):
        row = [gen_float(r) for _ in range(cols)]
        if nonzero and cols and sum(x * x for x in row) < 1e-4:
            row[r.randrange(cols)] = 1.0
        m.append(row)
    return m


def gen_meta(r):
    def val(d):
        k = r.randint(0, 5 if d else 4)
        if k == 0:
            return r.randint(-2**40, 2**40)
        if k == 1:
            return "".join(ch for ch in gen_word(r, 6, ban="\\\"'") if ch.isprintable())
        if k == 2:
            return r.random() < .5
        if k == 3:
            return r.choice([0.5, 1.25, -3.0, 1e10])
        if k == 4:
            return [r.randint(0, 9) for _ in range(r.randint(1, 3))]
        return {("k%d" % i): val(d - 1) for i in range(r.randint(1, 3))}
    return {("key%d" % i): val(1) for i in range(r.randint(0, 4))}


def gen_vocab(r, kinds=("simple", "bucket", "fasttext", "explicit"), small=True, wkw=None):
    kind = r.choice(kinds)
    words = gen_words(r, **(wkw or {}))
    mn, mx = gen_range(r)
    v = {"kind": kind, "words": words}
    if kind == "simple":
        return v
    v["min_n"], v["max_n"] = mn, mx
    if kind == "bucket":
        v["exp"] = r.choice([1, 2, 3, 4, 5] if small else [1, 2, 5, 8, 21, 31, 32, 33, 62, 63])
    elif kind == "fasttext":
        v["buckets"] = r.choice([1, 2, 3, 7, 16, 29] if small else [1, 3, 100, 2000000, 2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1])
    else:
        gs = []
        for w in words + gen_words(r, r.choice([0, 1, 2])):
            for g in ref_ngrams(w, mn, mx):
                if g not in gs and r.random() < .6:
                    gs.append(g)
        extra = gen_words(r, r.choice([0, 0, 1, 2]), minlen=1)
        gs += [g for g in extra if g not in gs]
        r.shuffle(gs)
        gs = gs[:25]
        v["ngrams"] = gs
        if r.random() < .3:
            v["index"] = None
        else:
            m = r.randint(1, len(gs)) if gs else 0
            idx = list(range(m)) + [r.randrange(m) for _ in range(len(gs) - m)]
            r.shuffle(idx)
            v["index"] = idx
    return v


def gen_quantized(r, rows):
    nq, nc, sd = r.randint(1, 3), r.choice([1, 2, 3, 5, 256 if rows < 3 and r.random() < .1 else 4]), r.randint(1, 3)
    d = {"nq": nq, "nc": nc, "sd": sd,
         "q": gen_matrix(r, nq * nc, sd),
         "codes": [[r.randrange(nc) for _ in range(nq)] for _ in range(rows)],
         "norms": [abs(gen_float(r)) + .5 for _ in range(rows)] if r.random() < .5 else None,
         "proj": gen_matrix(r, nq * sd, nq * sd) if r.random() < .5 else None}
    return d


def vocab_bound(v):
    n = len(v["words"])
    if v["kind"] == "simple":
        return n
    if v["kind"] == "bucket":
        return n + 2 ** v["exp"]
    if v["kind"] == "fasttext":
        return n + v["buckets"]
    idx = v["index"]
    return n + (len(v["ngrams"]) if idx is None else (max(idx) + 1 if idx else 0))


def gen_embeds(r, kinds=("simple", "bucket", "fasttext", "explicit"), storage=("nd", "quant"), norms=None, meta=None, wkw=None, nonzero=False, unit=False, mindim=1, wild=False):
    v = gen_vocab(r, kinds, wkw=wkw)
    rows = vocab_bound(v)
    e = {"vocab": v, "storage": r.choice(storage)}
    if e["storage"] == "nd":
        cols = r.choice([mindim, mindim, 2, 3, 3, 4, 5])
        e["cols"] = cols
        m = gen_matrix(r, rows, cols, nonzero)
        if unit:
            for i in range(len(v["words"])):
                a = np.array(m[i], np.float32)
                m[i] = [float(x) for x in (a / np.linalg.norm(a)).astype(np.float32)]
        e["m"] = m
    else:
        e["quant"] = gen_quantized(r, rows)
    hn = r.random() < .5 if norms is None else norms
    e["norms"] = [gen_norm(r) if wild else abs(gen_float(r)) + .25 for _ in v["words"]] if hn else None
    hm = r.random() < .5 if meta is None else meta
    e["meta"] = gen_meta(r) if hm else None
    if r.random() < .15:
        e["layout"] = r.choice(LAYOUTS)
        if e["storage"] == "quant":
            e["quant"]["layout"] = e["layout"]
    return e


def lay(a, layout):
    """the same values in another memory layout / byte order"""
    if layout == "be":
        return a.astype(a.dtype.newbyteorder(">"))
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided" and a.ndim:
        big = np.full(tuple(2 * n for n in a.shape), 77, a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    return a


LAYOUTS = ("be", "be", "F", "strided")


# ----------------------------------------------------------- build via public API
def F():
    import finalfusion
    return finalfusion


def mk_vocab(v):
    from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, FastTextVocab, ExplicitVocab
    from finalfusion.subword import FinalfusionHashIndexer, FastTextIndexer, ExplicitIndexer
    w = list(v["words"])
    k = v["kind"]
    if k == "simple":
        return SimpleVocab(w)
    if k == "bucket":
        return FinalfusionBucketVocab(w, FinalfusionHashIndexer(v["exp"], v["min_n"], v["max_n"]))
    if k == "fasttext":
        return FastTextVocab(w, FastTextIndexer(v["buckets"], v["min_n"], v["max_n"]))
    return ExplicitVocab(w, mk_explicit(v))


def mk_explicit(v):
    from finalfusion.subword import ExplicitIndexer
    g = list(v["ngrams"])
    return ExplicitIndexer(g, v["min_n"], v["max_n"], None if v["index"] is None else dict(zip(g, v["index"])))


def np_matrix(e):
    return np.array(e["m"], dtype=np.float32).reshape(len(e["m"]), e["cols"])


def mk_quant(q, rows):
    from finalfusion.storage.quantized import PQ, QuantizedArray
    quant = np.array(q["q"], dtype=np.float32).reshape(q["nq"], q["nc"], q["sd"])
    d = q["nq"] * q["sd"]
    proj = None if q["proj"] is None else np.array(q["proj"], dtype=np.float32).reshape(d, d)
    codes = np.array(q["codes"], dtype=np.uint8).reshape(rows, q["nq"])
    norms = None if q["norms"] is None else np.array(q["norms"], dtype=np.float32)
    l = q.get("layout")
    if l:
        quant, codes = lay(quant, l), lay(codes, l)
        proj, norms = (None if x is None else lay(x, l) for x in (proj, norms))
    return QuantizedArray(PQ(quant, proj), codes, norms)


def mk_storage(e):
    from finalfusion.storage import NdArray
    if e["storage"] == "nd":
        return NdArray(lay(np_matrix(e), e.get("layout")))
    return mk_quant(e["quant"], vocab_bound(e["vocab"]))


def mk_norms(e):
    from finalfusion.norms import Norms
    return None if e["norms"] is None else Norms(lay(np.array(e["norms"], dtype=np.float32), e.get("layout")))


def mk_meta(e):
    from finalfusion.metadata import Metadata
    return None if e["meta"] is None else Metadata(e["meta"])


def mk_embeds(e):
    from finalfusion import Embeddings
    return Embeddings(mk_storage(e), mk_vocab(e["vocab"]), mk_norms(e), mk_meta(e))


# ---------------------------------------------------------- reference semantics
def ref_ngrams(w, mn, mx, bracket=True):
    if bracket:
        w = "<" + w + ">"
    out = []
    for i in range(len(w)):
        for j in range(mx, mn - 1, -1):
            if i + j <= len(w):
                out.append(w[i:i + j])
    return out


def ref_fifu_hash(g):
    h = 0xcbf29ce484222325
    for b in struct.pack("<Q", len(g)) + b"".join(struct.pack("<I", ord(c)) for c in g):
        h = ((h ^ b) * 0x100000001b3) % 2**64
    return h


def ref_ft_hash(g):
    h = 2166136261
    for b in g.encode("utf-8"):
        if b >= 128:
            b += 0xffffff00
        h = ((h ^ b) * 16777619) % 2**32
    return h


def ref_index(v, g):
    """index of n-gram (without offset) or None"""
    if v["kind"] == "bucket":
        return ref_fifu_hash(g) % 2 ** v["exp"]
    if v["kind"] == "fasttext":
        return ref_ft_hash(g) % v["buckets"]
    gs = v["ngrams"]
    if g not in gs:
        return None
    i = gs.index(g)
    return i if v["index"] is None else v["index"][i]


def ref_subword_indices(v, w, offset, bracket=True, with_ngrams=False):
    out = []
    if v["kind"] == "simple":
        return out
    for g in ref_ngrams(w, v["min_n"], v["max_n"], bracket):
        i = ref_index(v, g)
        if i is not None:
            out.append((g, i + offset) if with_ngrams else i + offset)
    return out


def ref_lookup(v, q):
    if q in v["words"]:
        return v["words"].index(q)
    l = ref_subword_indices(v, q, len(v["words"]))
    return l or None


def ref_quant_rows(q):
    rows = []
    quant = np.array(q["q"], dtype=np.float64).reshape(q["nq"], q["nc"], q["sd"])
    d = q["nq"] * q["sd"]
    proj = None if q["proj"] is None else np.array(q["proj"], dtype=np.float64).reshape(d, d)
    for i, c in enumerate(q["codes"]):
        v = np.concatenate([quant[k, c[k]] for k in range(q["nq"])])
        if proj is not None:
            v = np.array([sum(v[a] * proj[b, a] for a in range(d)) for b in range(d)])
        if q["norms"] is not None:
            v = v * q["norms"][i]
        rows.append(v)
    return np.array(rows).reshape(len(rows), d)


def ref_rows(e):
    if e["storage"] == "nd":
        return np_matrix(e).astype(np.float64)
    return ref_quant_rows(e["quant"])


def dims(e):
    return e["cols"] if e["storage"] == "nd" else e["quant"]["nq"] * e["quant"]["sd"]


# --------------------------------------------------------------- reference files
ID = dict(simple=1, nd=2, bucket=3, quant=4, meta=5, norms=6, fasttext=7, explicit=8)


def pad(pos):
    return 4 - pos % 4


def enc_words(words):
    return b"".join(struct.pack("<I", len(w.encode("utf-8"))) + w.encode("utf-8") for w in words)


def ref_vocab_chunk(v):
    k = v["kind"]
    w = v["words"]
    if k == "simple":
        body = struct.pack("<Q", len(w)) + enc_words(w)
    elif k in ("bucket", "fasttext"):
        body = struct.pack("<QIII", len(w), v["min_n"], v["max_n"], v["exp"] if k == "bucket" else v["buckets"]) + enc_words(w)
    else:
        body = struct.pack("<QQII", len(w), len(v["ngrams"]), v["min_n"], v["max_n"]) + enc_words(w)
        for i, g in enumerate(v["ngrams"]):
            body += enc_words([g]) + struct.pack("<Q", i if v["index"] is None else v["index"][i])
    return struct.pack("<IQ", ID[k], len(body)) + body


def fl(a):
    return np.asarray(a, dtype="<f4").tobytes()


def ref_nd_chunk(e, pos):
    m = np_matrix(e)
    body = struct.pack("<QII", m.shape[0], m.shape[1], 10) + b"\0" * pad(pos + 4) + fl(m)
    return struct.pack("<IQ", 2, len(body)) + body


def ref_quant_chunk(q, rows, pos):
    d = q["nq"] * q["sd"]
    body = struct.pack("<IIIIIQII", q["proj"] is not None, q["norms"] is not None, q["nq"], d, q["nc"], rows, 1, 10)
    body += b"\0" * pad(pos + 4)
    if q["proj"] is not None:
        body += fl(q["proj"])
    body += fl(q["q"])
    if q["norms"] is not None:
        body += fl(q["norms"])
    body += bytes(c for row in q["codes"] for c in row)
    return struct.pack("<IQ", 4, len(body)) + body


def ref_norms_chunk(norms, pos):
    body = struct.pack("<QI", len(norms), 10) + b"\0" * pad(pos + 4) + fl(norms)
    return struct.pack("<IQ", 6, len(body)) + body


def ref_meta_chunk(meta):
    b = toml.dumps(meta).encode("utf-8")
    return struct.pack("<IQ", 5, len(b)) + b


def ref_header(ids):
    return b"FiFu" + struct.pack("<II%dI" % len(ids), 0, len(ids), *ids)


def ref_chunk(kind, e, pos):
    if kind == "meta":
        return ref_meta_chunk(e["meta"])
    if kind == "vocab":
        return ref_vocab_chunk(e["vocab"])
    if kind == "storage":
        return ref_nd_chunk(e, pos) if e["storage"] == "nd" else ref_quant_chunk(e["quant"], vocab_bound(e["vocab"]), pos)
    return ref_norms_chunk(e["norms"], pos)


def kinds_of(e):
    return (["meta"] if e["meta"] is not None else []) + ["vocab", "storage"] + (["norms"] if e["norms"] is not None else [])


def kind_id(kind, e):
    if kind == "vocab":
        return ID[e["vocab"]["kind"]]
    if kind == "storage":
        return ID[e["storage"]]
    return ID[kind]


def ref_file(e, kinds=None):
    """bytes and list of (kind, start, end, padstart, padend)"""
    kinds = kinds or kinds_of(e)
    out = ref_header([kind_id(k, e) for k in kinds])
    spans = []
    for k in kinds:
        c = ref_chunk(k, e, len(out))
        spans.append((k, len(out), len(out) + len(c)))
        out += c
    return out, spans


def last_content(e, kinds=None):
    """offset one past the last non-padding byte of the reference file"""
    data, spans = ref_file(e, kinds)
    k, s, t = spans[-1]
    if k == "norms" and not e["norms"]:
        return t - pad(s + 4)
    if k == "storage" and e["storage"] == "nd" and np_matrix(e).size == 0:
        return t - pad(s + 4)
    return t


# ---------------------------------------------------------------- comparisons
class Fail(Exception):
    pass


def req(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def same_bits(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    req(a.shape == b.shape, "%s: shape %s != %s", what, a.shape, b.shape)
    req(a.dtype.newbyteorder("=") == b.dtype.newbyteorder("="), "%s: dtype %s != %s", what, a.dtype, b.dtype)
    nat = lambda x: np.ascontiguousarray(x.astype(x.dtype.newbyteorder("="))).tobytes()
    req(nat(a) == nat(b), "%s: values differ: %s != %s", what, a.tolist()[:5], b.tolist()[:5])


def close(a, b, what, rtol=2e-4, atol=2e-5):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    req(a.shape == b.shape, "%s: shape %s != %s", what, a.shape, b.shape)
    if a.size == 0:
        return
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    req(bool(np.all(ok)), "%s: %s != expected %s", what, a.tolist(), b.tolist())


def same_vec(a, b, what, exact):
    """relative to the size of the vector; exact: a single float32 multiplication at most separates them"""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    req(a.shape == b.shape, "%s: shape %s != %s", what, a.shape, b.shape)
    if a.size == 0:
        return
    tol = 3e-7 * np.abs(b) + 1e-44 if exact else 1e-3 * np.max(np.abs(b)) + 1e-30
    req(bool(np.all(np.abs(a - b) <= tol)), "%s: %s != expected %s", what, a.tolist(), b.tolist())


def raises(fn, *exc):
    try:
        v = fn()
    except exc or Exception as e:
        return e
    raise Fail("no exception, got %r" % (v,))


def cmp_vocab(obj, v, what="vocab"):
    names = dict(simple="SimpleVocab", bucket="FinalfusionBucketVocab", fasttext="FastTextVocab", explicit="ExplicitVocab")
    req(type(obj).__name__ == names[v["kind"]], "%s: type %s", what, type(obj).__name__)
    req(list(obj.words) == v["words"], "%s: words %r != %r", what, list(obj.words), v["words"])
    req(dict(obj.word_index) == {w: i for i, w in enumerate(v["words"])}, "%s: word_index %r", what, obj.word_index)
    req(obj.upper_bound == vocab_bound(v), "%s: upper_bound %r != %r", what, obj.upper_bound, vocab_bound(v))
    if v["kind"] != "simple":
        req((obj.min_n, obj.max_n) == (v["min_n"], v["max_n"]), "%s: n-gram range %r", what, (obj.min_n, obj.max_n))
        ix = obj.subword_indexer
        if v["kind"] == "bucket":
            req(ix.buckets_exp == v["exp"], "%s: buckets_exp %r", what, ix.buckets_exp)
        elif v["kind"] == "fasttext":
            req(ix.n_buckets == v["buckets"], "%s: n_buckets %r", what, ix.n_buckets)
        else:
            req(list(ix.ngrams) == v["ngrams"], "%s: ngrams %r", what, ix.ngrams)
            req(dict(ix.ngram_index) == {g: ref_index(v, g) for g in v["ngrams"]}, "%s: ngram_index %r", what, ix.ngram_index)


def cmp_storage(st, e, what="storage"):
    if e["storage"] == "nd":
        req(type(st).__name__ == "NdArray", "%s: type %s", what, type(st).__name__)
        same_bits(np.asarray(st), np_matrix(e), what)
        req(tuple(st.shape) == np_matrix(e).shape, "%s: shape", what)
    else:
        q = e["quant"]
        rows = vocab_bound(e["vocab"])
        d = q["nq"] * q["sd"]
        req(type(st).__name__ == "QuantizedArray", "%s: type %s", what, type(st).__name__)
        req(tuple(st.shape) == (rows, d), "%s: shape %s", what, st.shape)
        same_bits(st.quantizer.subquantizers, np.array(q["q"], np.float32).reshape(q["nq"], q["nc"], q["sd"]), what + " subquantizers")
        if q["proj"] is None:
            req(st.quantizer.projection is None, "%s: projection appeared", what)
        else:
            req(st.quantizer.projection is not None, "%s: projection lost", what)
            same_bits(st.quantizer.projection, np.array(q["proj"], np.float32).reshape(d, d), what + " projection")
        req(st.quantized_len == q["nq"] and st.quantizer.n_centroids == q["nc"], "%s: quantizer config", what)
        # codes and norms are observed through the reconstruction and through rewriting
        close(np.asarray(st), ref_quant_rows(q), what + " rows", 1e-3, 1e-3)


def cmp_norms(n, e, what="norms"):
    if e["norms"] is None:
        req(n is None, "%s: appeared", what)
    else:
        req(n is not None, "%s: lost", what)
        same_bits(np.asarray(n), np.array(e["norms"], np.float32), what)


def cmp_meta(m, e, what="metadata"):
    if e["meta"] is None:
        req(m is None, "%s: appeared %r", what, m)
    else:
        req(m is not None, "%s: lost", what)
        req(dict(m) == toml.loads(toml.dumps(e["meta"])), "%s: %r != %r", what, m, e["meta"])


def cmp_embeds(o, e, what=""):
    cmp_vocab(o.vocab, e["vocab"], what + "vocab")
    cmp_storage(o.storage, e, what + "storage")
    cmp_norms(o.norms, e, what + "norms")
    cmp_meta(o.metadata, e, what + "metadata")


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="ffv-c-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write(p, b):
    with open(p, "wb") as f:
        f.write(b)


def snapshot(o):
    """hashable bit-exact snapshot of everything observable in embeddings"""
    st = o.storage
    if type(st).__name__ == "NdArray":
        s = np.asarray(st).tobytes()
    else:
        s = (st.quantizer.subquantizers.tobytes(), None if st.quantizer.projection is None else st.quantizer.projection.tobytes(), np.asarray(st).tobytes())
    v = o.vocab
    sub = None
    if hasattr(v, "subword_indexer"):
        ix = v.subword_indexer
        sub = (v.min_n, v.max_n, ix.upper_bound, tuple(getattr(ix, "ngrams", ())), tuple(sorted(getattr(ix, "ngram_index", {}).items())))
    return (tuple(st.shape), s, tuple(v.words), tuple(sorted(v.word_index.items())), sub,
            None if o.norms is None else np.asarray(o.norms).tobytes(),
            None if o.metadata is None else repr(sorted(o.metadata.items())))
