"""Executable contracts of the properties: gen(r) -> case, check(case) raises Fail."""
import io, os, random, struct, sys, math
import numpy as np
from common import *

REG = {}


def prop(id):
    def d(cls):
        REG[id] = cls
        return cls
    return d


# ------------------------------------------------------------------ C01
@prop("C01")
class C01:
    gen = staticmethod(lambda r: {"e": gen_embeds(r, wkw={"ws": True}), "big": {"bucket": r.randint(1, 63), "fasttext": r.choice([2**31 - 1, 2**31 + 5, 2**32 - 1])}})

    @staticmethod
    def check(c):
        e = c["e"]
        o = mk_embeds(e)
        from finalfusion import load_finalfusion
        from finalfusion.vocab import load_vocab, load_simple_vocab, load_finalfusion_bucket_vocab, load_fasttext_vocab, load_explicit_vocab
        from finalfusion.storage import load_storage, load_ndarray, load_quantized_array
        from finalfusion.norms import load_norms
        from finalfusion.metadata import load_metadata
        with Tmp() as d:
            p = os.path.join(d, "f")
            o.write(p)
            l = load_finalfusion(p)
            cmp_embeds(l, e, "loaded ")
            p2 = os.path.join(d, "g")
            l.write(p2)
            req(read(p) == read(p2), "rewriting the loaded embeddings gives a different file")
            o.vocab.write(p)
            cmp_vocab(load_vocab(p), e["vocab"], "standalone vocab")
            k = e["vocab"]["kind"]
            cmp_vocab(dict(simple=load_simple_vocab, bucket=load_finalfusion_bucket_vocab, fasttext=load_fasttext_vocab, explicit=load_explicit_vocab)[k](p), e["vocab"], "standalone vocab (typed loader)")
            req(load_vocab(p) == o.vocab, "loaded vocab does not compare equal")
            if c.get("big") and k in ("bucket", "fasttext"):    # more buckets than there could be rows
                v = dict(e["vocab"], **{"exp" if k == "bucket" else "buckets": c["big"][k]})
                mk_vocab(v).write(p)
                cmp_vocab(load_vocab(p), v, "standalone vocab")
            o.storage.write(p)
            cmp_storage(load_storage(p), e, "standalone storage")
            cmp_storage((load_ndarray if e["storage"] == "nd" else load_quantized_array)(p), e, "standalone storage (typed loader)")
            if o.norms is not None:
                o.norms.write(p)
                cmp_norms(load_norms(p), e, "standalone norms")
            if o.metadata is not None:
                o.metadata.write(p)
                cmp_meta(load_metadata(p), e, "standalone metadata")


# ------------------------------------------------------------------ C02
def load_component(kind, e, p):
    from finalfusion.vocab import load_vocab
    from finalfusion.storage import load_storage
    from finalfusion.norms import load_norms
    from finalfusion.metadata import load_metadata
    if kind == "vocab":
        cmp_vocab(load_vocab(p), e["vocab"], "component vocab")
    elif kind == "storage":
        cmp_storage(load_storage(p), e, "component storage")
    elif kind == "norms":
        cmp_norms(load_norms(p), e, "component norms")
    else:
        cmp_meta(load_metadata(p), e, "component metadata")


@prop("C02")
class C02:
    @staticmethod
    def gen(r):
        e = gen_embeds(r, wkw={"ws": True})
        ks = kinds_of(e)
        r.shuffle(ks)
        return {"e": e, "order": ks}

    @staticmethod
    def check(c):
        e = c["e"]
        o = mk_embeds(e)
        from finalfusion.io import Header, find_chunk, ChunkIdentifier
        with Tmp() as d:
            p = os.path.join(d, "f")
            o.write(p)
            got, (exp, spans) = read(p), ref_file(e)
            # generic framing walk first
            req(got[:4] == b"FiFu", "magic")
            ver, n = struct.unpack_from("<II", got, 4)
            ids = list(struct.unpack_from("<%dI" % n, got, 12))
            req(ver == 0 and ids == [kind_id(k, e) for k in kinds_of(e)], "header ids %r", ids)
            pos, seen = 12 + 4 * n, []
            while pos < len(got):
                req(pos + 12 <= len(got), "chunk header cut: previous length field wrong")
                i, ln = struct.unpack_from("<IQ", got, pos)
                seen.append(i)
                pos += 12 + ln
            req(pos == len(got) and seen == ids, "walking by chunk lengths gives chunks %r ending at %d of %d bytes, header lists %r", seen, pos, len(got), ids)
            req(got == exp, "file differs from the published layout at byte %d", next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp))))
            for k in kinds_of(e):
                load_component(k, e, p)
            for k in ("meta", "norms"):
                if k not in kinds_of(e):
                    raises(lambda: load_component(k, e, p), ValueError)
            # any order of chunks
            parts = dict(meta=o.metadata, vocab=o.vocab, storage=o.storage, norms=o.norms)
            with open(p, "wb") as f:
                Header([parts[k].chunk_identifier() for k in c["order"]]).write_chunk(f)
                for k in c["order"]:
                    parts[k].write_chunk(f)
            exp, spans = ref_file(e, c["order"])
            req(read(p) == exp, "chunks in order %r differ from the published layout", c["order"])
            for k in c["order"]:
                load_component(k, e, p)
            with open(p, "rb") as f:
                for (k, s, t) in spans:
                    cid = ChunkIdentifier(kind_id(k, e))
                    req(find_chunk(f, [cid]) == cid and f.tell() == s + 12, "find_chunk(%r) at %d, expected %d", k, f.tell(), s + 12)
                miss = [x for x in ChunkIdentifier if x != 0 and int(x) not in [kind_id(k, e) for k in c["order"]]]
                req(find_chunk(f, miss) is None, "find_chunk found a chunk that is not there")
                req(find_chunk(f, [ChunkIdentifier(kind_id(k, e)) for k in c["order"]]) == kind_id(c["order"][0], e), "find_chunk: not the first chunk")
            for k in ("vocab", "storage"):
                parts[k].write(p)
                req(read(p) == ref_file(e, [k])[0], "standalone %s differs from the published layout", k)


# ------------------------------------------------------------------ C03
@prop("C03")
class C03:
    @staticmethod
    def gen(r):
        e = gen_embeds(r, wkw={"n": r.choice([0, 1, 2, 3]), "maxlen": 4, "ws": True})
        return {"e": e, "mmap": r.random() < .3, "seed": r.randrange(10**6)}

    @staticmethod
    def check(c):
        e = c["e"]
        from finalfusion import load_finalfusion
        data, spans = ref_file(e)
        end = last_content(e)
        r = random.Random(c["seed"])
        cuts = set(range(0, end)) if end <= 150 else set(r.sample(range(end), 110)) | {s for (_, s, t) in spans} | {t - 1 for (_, s, t) in spans if t - 1 < end} | set(range(max(0, end - 9), end))
        with Tmp() as d:
            p = os.path.join(d, "f")
            write(p, data)
            load_finalfusion(p, mmap=c["mmap"])
            for cut in sorted(cuts):
                write(p, data[:cut])
                try:
                    l = load_finalfusion(p, mmap=c["mmap"])
                except Exception:
                    continue
                raise Fail("file of %d bytes cut to %d was loaded (mmap=%s): %d words, storage %r, norms %r" % (len(data), cut, c["mmap"], len(l.vocab), tuple(l.storage.shape), l.norms))
            # components
            for (k, s, t) in spans:
                data1, sp1 = ref_file(e, [k])
                end1 = last_content(e, [k])
                pts = range(0, end1) if end1 <= 80 else r.sample(range(end1), 40) + list(range(end1 - 9, end1))
                for cut in pts:
                    write(p, data1[:cut])
                    try:
                        load_component(k, e, p)
                    except Fail as f:
                        raise Fail("component %s of %d bytes cut to %d was loaded: %s" % (k, len(data1), cut, f))
                    except Exception:
                        continue
                    raise Fail("component %s of %d bytes cut to %d was loaded" % (k, len(data1), cut))
            # foreign values

            def corrupt(off, b, what):
                x = data[:off] + b + data[off + len(b):]
                if x == data:
                    return
                write(p, x)
                try:
                    load_finalfusion(p, mmap=c["mmap"])
                except Exception:
                    return
                raise Fail("%s: corrupted bytes %r at %d were accepted" % (what, b, off))
            corrupt(r.randrange(4), bytes([r.choice([0, 70, 105, 117, 255])]), "magic")
            corrupt(4, struct.pack("<I", r.choice([1, 2, 256, 2**32 - 1])), "version")
            for (k, s, t) in spans:
                for v in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 2**31):
                    if k == "vocab" and v in (1, 3, 7, 8) or k == "storage" and v in (2, 4):
                        continue
                    corrupt(s, struct.pack("<I", v), "chunk identifier of " + k)
                if k == "norms":
                    for v in (0, 1, 2, 9, 11, 256):
                        corrupt(s + 20, struct.pack("<I", v), "norms type")
                if k == "storage" and e["storage"] == "nd":
                    for v in (0, 1, 9, 11, 256):
                        corrupt(s + 24, struct.pack("<I", v), "matrix type")
                if k == "storage" and e["storage"] == "quant":
                    for v in (0, 2, 10, 256):
                        corrupt(s + 40, struct.pack("<I", v), "code type")
                    for v in (0, 1, 9, 256):
                        corrupt(s + 44, struct.pack("<I", v), "centroid type")


# ------------------------------------------------------------------ C04
@prop("C04")
class C04:
    gen = staticmethod(lambda r: {"e": gen_embeds(r), "q": gen_words(r, 3)})

    @staticmethod
    def check(c):
        e = c["e"]
        from finalfusion import load_finalfusion
        from finalfusion.storage import load_storage, load_ndarray, load_quantized_array
        with Tmp() as d:
            p = os.path.join(d, "f")
            write(p, ref_file(e)[0])
            a, b = load_finalfusion(p), load_finalfusion(p, mmap=True)
            cmp_embeds(b, e, "mmap ")
            req(snapshot(a) == snapshot(b), "mmap and in-memory embeddings differ")
            for q in c["q"] + e["vocab"]["words"]:
                x, y = a.embedding(q), b.embedding(q)
                req((x is None) == (y is None), "lookup of %r differs", q)
                if x is not None:
                    same_bits(np.asarray(x), np.asarray(y), "lookup %r" % q)
            typed = load_ndarray if e["storage"] == "nd" else load_quantized_array
            for fn in (load_storage, typed):
                s = fn(p, mmap=True)
                cmp_storage(s, e, "mmap component storage")
                s2 = fn(p)
                same_bits(np.asarray(s), np.asarray(s2), "component storage mmap vs read")
            write(p, ref_file(e, ["storage"])[0])
            cmp_storage(load_storage(p, mmap=True), e, "mmap standalone storage")


# ------------------------------------------------------------------ C05
@prop("C05")
class C05:
    @staticmethod
    def gen(r):
        v = gen_vocab(r, small=r.random() < .7, wkw={"ws": True})
        qs = gen_words(r, 4) + v["words"][:3] + ([w + "x" for w in v["words"][:2]])
        return {"v": v, "qs": qs, "dup": r.randrange(100)}

    @staticmethod
    def check(c):
        v = c["v"]
        o = mk_vocab(v)
        W = v["words"]
        cmp_vocab(o, v)
        req(list(iter(o)) == W and len(o) == len(W), "iteration/len")
        for i, w in enumerate(W):
            for got in (o[w], o.idx(w), o.idx(w, 12345), o.idx(w, [1])):
                req(got == i and not isinstance(got, list), "known word %r (position %d) looked up as %r", w, i, got)
            req(w in o, "%r not in vocab", w)
        n = len(W)
        for q in c["qs"]:
            req((q in o) == (q in W), "%r in vocab = %r", q, q in o)
            exp = ref_lookup(v, q)
            sentinel = [-7]
            for default in (None, sentinel, 99, 0, []):
                got = o.idx(q, default)
                if exp is None:
                    req(got is default, "unknown %r with default %r -> %r", q, default, got)
                else:
                    req(got == exp, "lookup %r: %r, expected %r", q, got, exp)
            if exp is None:
                raises(lambda: o[q], KeyError)
            else:
                req(o[q] == exp, "vocab[%r] = %r, expected %r", q, o[q], exp)
            if v["kind"] != "simple":
                sw = o.subword_indices(q)
                req(sw == ref_subword_indices(v, q, n), "subword_indices(%r) = %r", q, sw)
                req(all(n <= x < o.upper_bound for x in sw), "subword index out of bounds: %r (%d..%d)", sw, n, o.upper_bound)
        if W:
            req(W in o and (W + ["\ufffe?"] in o) is False, "containment of iterables")
            dup = list(W)
            dup.insert(c["dup"] % (len(W) + 1), W[(c["dup"] // 7) % len(W)])
            raises(lambda: mk_vocab(dict(v, words=dup)))
        req((5 in o) is False, "int in vocab")


# ------------------------------------------------------------------ C06
@prop("C06")
class C06:
    @staticmethod
    def gen(r):
        v = gen_vocab(r, ("bucket", "fasttext", "explicit"), small=r.random() < .5)
        if v["kind"] == "fasttext" and r.random() < .3:
            v["buckets"] = r.choice([2**32 - 1, 2**31 + 11])
        if r.random() < .01:    # lengths above one byte
            v["min_n"], v["max_n"] = 256, r.choice([256, 257, 300])
            if v["kind"] == "explicit":
                v["ngrams"], v["index"] = ["ab" * 128, "ba" * 128], None
            return {"v": v, "q": ["ab" * 128, "\u00e4" * 258], "off": r.choice([0, 2**33])}
        return {"v": v, "q": gen_words(r, 3, maxlen=r.choice([8, 8, 20, 60])) + v["words"][:2],
                "off": r.choice([0, 1, 5, 1000, 2**31, 2**33])}

    @staticmethod
    def check(c):
        from finalfusion.subword import ngrams
        v = c["v"]
        o = mk_vocab(v)
        ix = o.subword_indexer
        mn, mx = v["min_n"], v["max_n"]
        for q in c["q"]:
            for br in (True, False):
                exp = ref_ngrams(q, mn, mx, br)
                req(ngrams(q, mn, mx, br) == exp, "ngrams(%r,%d,%d,%r) = %r", q, mn, mx, br, ngrams(q, mn, mx, br))
                req(o.subwords(q, br) == exp, "subwords(%r, %r) = %r", q, br, o.subwords(q, br))
                for off in (0, c["off"]):
                    e1 = ref_subword_indices(v, q, off, br)
                    e2 = ref_subword_indices(v, q, off, br, True)
                    g1 = ix.subword_indices(q, off, br)
                    g2 = ix.subword_indices(q, offset=off, bracket=br, with_ngrams=True)
                    req(g1 == e1, "subword_indices(%r, %d, %r) = %r expected %r", q, off, br, g1, e1)
                    req(g2 == e2, "subword_indices(%r, %d, %r, with_ngrams) = %r expected %r", q, off, br, g2, e2)
                    one = [(g, ix(g)) for g in exp]
                    req([(g, i + off) for g, i in one if i is not None] == g2, "bulk and single n-gram lookup disagree for %r", q)
                n = len(v["words"])
                req(o.subword_indices(q, br) == ref_subword_indices(v, q, n, br), "vocab.subword_indices(%r, %r)", q, br)
                req(o.subword_indices(q, br, True) == ref_subword_indices(v, q, n, br, True), "vocab.subword_indices(%r, %r, True)", q, br)
            req(ngrams(q, mn, mx) == ref_ngrams(q, mn, mx), "ngrams default bracket")
            req(ix.subword_indices(q) == ref_subword_indices(v, q, 0), "subword_indices defaults")
            req(ngrams(q) == ref_ngrams(q, 3, 6), "ngrams default range")
        raises(lambda: ngrams("abc", 3, 2), AssertionError)
        raises(lambda: ngrams("abc", 0, 2), AssertionError)
        raises(lambda: ngrams(None, 1, 2), TypeError)


# ------------------------------------------------------------------ C07
@prop("C07")
class C07:
    @staticmethod
    def gen(r):
        return {"g": [gen_word(r, r.choice([6, 6, 40])) for _ in range(4)] + [chr(r.choice([r.randrange(1, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(3)],
                "exp": r.randint(1, 63), "buckets": r.choice([1, 2, 100, 2000000, 2**31 - 1, 2**31, 2**32 - 1, r.randint(1, 2**32 - 1)]),
                "r": gen_range(r), "long": r.choice([33000, 66000]) if r.random() < .004 else 0}

    @staticmethod
    def check(c):
        from finalfusion.subword import FinalfusionHashIndexer, FastTextIndexer
        if c.get("long"):    # offsets above two bytes
            g = "\u00e4" * c["long"] + "xyz"
            for ix, h in ((FinalfusionHashIndexer(c["exp"], 3, 3), ref_fifu_hash("xyz") % 2 ** c["exp"]), (FastTextIndexer(c["buckets"], 3, 3), ref_ft_hash("xyz") % c["buckets"])):
                got = ix.subword_indices(g, bracket=False)
                req(len(got) == c["long"] + 1 and got[-1] == h and set(got[:-3]) == {ix("\u00e4" * 3)}, "bulk hashes of %d characters", len(g))
        a = FinalfusionHashIndexer(c["exp"], *c["r"])
        b = FastTextIndexer(c["buckets"], *c["r"])
        req(a.upper_bound == 2 ** c["exp"] and a.buckets_exp == c["exp"], "upper_bound for exponent %d is %r", c["exp"], a.upper_bound)
        req(b.upper_bound == c["buckets"] == b.n_buckets, "upper_bound for %d buckets is %r", c["buckets"], b.upper_bound)
        for g in c["g"]:
            x = ref_fifu_hash(g) % 2 ** c["exp"]
            req(a(g) == x, "finalfusion index of %r (exp %d) = %r expected %d", g, c["exp"], a(g), x)
            y = ref_ft_hash(g) % c["buckets"]
            req(b(g) == y, "fastText index of %r (%d buckets) = %r expected %d", g, c["buckets"], b(g), y)
            n = len(g)
            if n:
                for ix, h in ((FinalfusionHashIndexer(c["exp"], n, n), x), (FastTextIndexer(c["buckets"], n, n), y)):
                    req(ix.subword_indices(g, bracket=False) == [h], "bulk hash of %r: %r expected %r", g, ix.subword_indices(g, bracket=False), [h])
                    req(ix.subword_indices(g, offset=3, bracket=False, with_ngrams=True) == [(g, h + 3)], "bulk hash of %r with offset", g)
        for bad in (0, 64, 65, -1):
            raises(lambda: FinalfusionHashIndexer(bad), AssertionError)
        for bad in (0, 2**32):
            raises(lambda: FastTextIndexer(bad), AssertionError)


# ------------------------------------------------------------------ C08
def ref_to_explicit(v):
    seen, classes = [], []
    for w in v["words"]:
        for g in ref_ngrams(w, v["min_n"], v["max_n"]):
            if g not in seen:
                seen.append(g)
    return seen


@prop("C08")
class C08:
    @staticmethod
    def gen(r):
        v = gen_vocab(r, ("bucket", "fasttext"), small=r.random() < .8)
        t = gen_vocab(r, ("explicit",))
        n = len(t["ngrams"])
        bad = [r.randint(-2, n) for _ in range(n)]
        return {"v": v, "t": t, "bad": bad, "badkeys": gen_words(r, n), "probe": gen_words(r, 3)}

    @staticmethod
    def check(c):
        from finalfusion.subword import ExplicitIndexer
        t = c["t"]
        ix = mk_explicit(t)
        m = {g: ref_index(t, g) for g in t["ngrams"]}
        bound = len(set(m.values()))
        req(ix.upper_bound == bound, "upper_bound %r expected %r", ix.upper_bound, bound)
        req(list(ix) == t["ngrams"] and len(ix) == len(t["ngrams"]), "iteration/len")
        for g in t["ngrams"]:
            req(ix(g) == m[g] and ix[g] == m[g] and g in ix, "index of %r: %r", g, ix(g))
        for q in c["probe"]:
            if q not in m:
                req(ix(q) is None and q not in ix, "unknown n-gram %r has index %r", q, ix(q))
                raises(lambda: ix[q], KeyError)
        # arbitrary tables: accepted iff dense
        g = t["ngrams"]
        dense = sorted(set(c["bad"])) == list(range(len(set(c["bad"]))))
        mk = lambda: ExplicitIndexer(list(g), t["min_n"], t["max_n"], dict(zip(g, c["bad"])))
        if dense:
            req(mk().upper_bound == len(set(c["bad"])), "dense table bound")
        else:
            try:
                x = mk()
            except AssertionError:
                x = None
            req(x is None, "table with indices %r accepted, bound %r", c["bad"], x and x.upper_bound)
        if g:
            raises(lambda: ExplicitIndexer(g + g[:1], t["min_n"], t["max_n"]), AssertionError)
            raises(lambda: ExplicitIndexer(g + g[:1], t["min_n"], t["max_n"], dict(zip(g, range(len(g))))), AssertionError)
            raises(lambda: ExplicitIndexer(g[1:], t["min_n"], t["max_n"], dict(zip(g, range(len(g))))), AssertionError)
            other = dict(zip(c["badkeys"][:len(g)], range(len(g))))
            if len(other) == len(g) and set(other) != set(g):
                raises(lambda: ExplicitIndexer(list(g), t["min_n"], t["max_n"], other), AssertionError)
        for (a, b) in ((0, 3), (3, 2)):
            raises(lambda: ExplicitIndexer([], a, b), AssertionError)
        # conversion
        v = c["v"]
        o = mk_vocab(v)
        x = o.to_explicit()
        req(type(x).__name__ == "ExplicitVocab" and list(x.words) == v["words"], "words changed")
        req((x.min_n, x.max_n) == (v["min_n"], v["max_n"]), "range changed")
        exp = ref_to_explicit(v)
        got = list(x.subword_indexer.ngrams)
        req(sorted(got) == sorted(exp), "n-grams %r expected %r", got, exp)
        idx = {g: x.subword_indexer(g) for g in exp}
        req(set(idx.values()) == set(range(x.subword_indexer.upper_bound)), "indices %r do not cover [0,%d)", sorted(set(idx.values())), x.subword_indexer.upper_bound)
        by = {}
        for g in exp:
            by.setdefault(ref_index(v, g), set()).add(idx[g])
        req(all(len(s) == 1 for s in by.values()), "n-grams of one bucket got different indices")
        req(len({min(s) for s in by.values()}) == len(by), "n-grams of different buckets share an index")
        req(x.upper_bound == len(v["words"]) + len(by), "upper bound %d", x.upper_bound)
        req(list(o.words) == v["words"], "conversion changed the vocabulary")


# ------------------------------------------------------------------ C09
@prop("C09")
class C09:
    gen = staticmethod(lambda r: {"e": gen_embeds(r, ("bucket", "fasttext"))})

    @staticmethod
    def check(c):
        e = c["e"]
        o = mk_embeds(e)
        before = snapshot(o)
        x = o.bucket_to_explicit()
        req(snapshot(o) == before, "original embeddings changed")
        rows = ref_rows(e)
        v = e["vocab"]
        n = len(v["words"])
        exp = ref_to_explicit(v)
        req(list(x.vocab.words) == v["words"], "words")
        used = {ref_index(v, g) for g in exp}
        req(tuple(x.storage.shape) == (n + len(used), dims(e)), "shape %r expected %r", x.storage.shape, (n + len(used), dims(e)))
        st = np.asarray(x.storage)
        for i in range(n):
            close(st[i], rows[i], "row of word %r" % v["words"][i])
        for g in exp:
            j = n + x.vocab.subword_indexer(g)
            close(st[j], rows[n + ref_index(v, g)], "row of n-gram %r" % g)
        cmp_norms(x.norms, e)
        req(x.metadata is None, "metadata copied")
        for w in v["words"]:
            close(x[w], o[w], "embedding of %r" % w)
        # unknown words composed of known n-grams
        for w in v["words"]:
            if len(w) > 1:
                q = w[:-1]
                if q not in v["words"] and set(ref_ngrams(q, v["min_n"], v["max_n"])) <= set(exp) and ref_ngrams(q, v["min_n"], v["max_n"]):
                    close(x[q], o[q], "embedding of unknown %r" % q)
        raises(lambda: x.bucket_to_explicit(), TypeError)


# ------------------------------------------------------------------ C10
def ref_embedding(e, q):
    rows = ref_rows(e)
    i = ref_lookup(e["vocab"], q)
    if i is None:
        return None
    if isinstance(i, int):
        return rows[i], (None if e["norms"] is None else e["norms"][i])
    s = np.zeros(dims(e))
    for j in i:
        s = s + rows[j]
    n = math.sqrt(float(np.sum(s * s)))
    return (s / n if n > 1e-3 else None), n


def queries(r, v):
    qs = gen_words(r, 3) + v["words"][:3]
    for w in v["words"][:3]:
        qs += [w + "x", w[:-1], w[::-1], w.swapcase(), w.lower(), w.upper()]
    return qs


@prop("C10")
class C10:
    @staticmethod
    def gen(r):
        e = gen_embeds(r, wild=True)
        return {"e": e, "qs": queries(r, e["vocab"])}

    @staticmethod
    def check(c):
        e = c["e"]
        o = mk_embeds(e)
        D = dims(e)
        for q in c["qs"]:
            exp = ref_embedding(e, q)
            known = q in e["vocab"]["words"]
            default = np.arange(D, dtype=np.float32)
            if exp is None:
                raises(lambda: o[q], KeyError)
                req(o.embedding(q) is None, "embedding(%r) without indices", q)
                req(o.embedding(q, default=default) is default, "default not returned")
                out = np.full(D, 7, dtype=np.float32)
                req(o.embedding(q, out=out) is None, "unknown with out but no default")
                close(out, np.full(D, 7), "out was touched")
                got = o.embedding(q, out=out, default=default)
                req(got is out, "out not returned")
                close(out, default, "default not written to out")
                if e["norms"] is not None:
                    req(o.embedding_with_norm(q) is None, "with_norm unknown")
                    dd = (default, 2.5)
                    req(o.embedding_with_norm(q, default=dd) is dd, "with_norm default")
                    out = np.zeros(D, dtype=np.float32)
                    g = o.embedding_with_norm(q, out=out, default=dd)
                    req(g[0] is out and g[1] == 2.5, "with_norm default with out")
                    close(out, default, "with_norm default not written to out")
            else:
                vec, norm = exp
                if vec is None:
                    continue
                cond = dict(rtol=5e-3, atol=5e-3) if not known else {}
                close(o[q], vec, "embeddings[%r]" % q, **cond)
                close(o.embedding(q), vec, "embedding(%r)" % q, **cond)
                close(o.embedding(q, default=default), vec, "embedding(%r) with default" % q, **cond)
                if known and e["storage"] == "nd":
                    same_bits(o[q], np_matrix(e)[e["vocab"]["words"].index(q)], "row of %r" % q)
                for dflt in (None, default):
                    out = np.full(D, 7, dtype=np.float32)
                    got = o.embedding(q, out=out, default=dflt)
                    req(got is out, "embedding(%r, out) did not return out", q)
                    close(out, vec, "embedding(%r) in out" % q, **cond)
                    out = np.full((D, 2), 7, dtype=np.float32)
                    o.embedding(q, out=out[:, 0], default=dflt)
                    close(out[:, 0], vec, "embedding(%r) in a column" % q, **cond)
                    close(out[:, 1], np.full(D, 7), "column beside the output")
                if not known:
                    close(np.linalg.norm(o[q]), 1.0, "length of subword embedding", 1e-3, 1e-3)
                if e["norms"] is not None:
                    for out in (None, np.zeros(D, dtype=np.float32)):
                        g = o.embedding_with_norm(q, out=out)
                        close(g[0], vec, "with_norm(%r)" % q, **cond)
                        close(g[1], norm, "norm of %r" % q, 1e-3, 1e-3)
                        if out is not None:
                            req(g[0] is out, "with_norm out")
            if e["norms"] is None:
                raises(lambda: o.embedding_with_norm(q), TypeError)
        req(o.dims == D and o.n_words == len(e["vocab"]["words"]), "dims/n_words")
        it = list(o)
        req([x[0] for x in it] == e["vocab"]["words"], "iteration words")
        rows = ref_rows(e)
        for i, x in enumerate(it):
            close(x[1], rows[i], "iterated row")
            req(len(x) == (2 if e["norms"] is None else 3), "iteration arity")
            if e["norms"] is not None:
                close(x[2], e["norms"][i], "iterated norm")


# ------------------------------------------------------------------ C11
def check_topk(res, sims, words, skips, k, what):
    req(res is not None, "%s: no result", what)
    elig = {w: s for w, s in zip(words, sims) if w not in skips}
    got = [(x.word, float(x.similarity)) for x in res]
    req(len(got) == min(k, len(elig)), "%s: %d results, expected %d (k=%d, %d eligible)", what, len(got), min(k, len(elig)), k, len(elig))
    req(len({w for w, _ in got}) == len(got), "%s: duplicate words %r", what, got)
    tol = 1e-3 * (1 + max([abs(s) for s in sims], default=0))
    for w, s in got:
        req(w in elig, "%s: %r is skipped or unknown", what, w)
        req(abs(elig[w] - s) <= tol, "%s: similarity of %r is %r, expected %r", what, w, s, elig[w])
    req(all(a[1] >= b[1] for a, b in zip(got, got[1:])), "%s: not in descending order: %r", what, got)
    if got:
        gw = {w for w, _ in got}
        worst = got[-1][1]
        for w, s in elig.items():
            req(w in gw or s <= worst + 2 * tol, "%s: %r with similarity %r is missing (worst returned %r)", what, w, s, worst)


@prop("C11")
class C11:
    @staticmethod
    def gen(r):
        e = gen_embeds(r, wkw={"n": r.choice([0, 1, 2, 3, 5, 8, 12, 20])})
        W = e["vocab"]["words"]
        return {"e": e, "qs": queries(r, e["vocab"]), "k": [r.choice([1, 2, 3, 5, 10, 25, len(W), len(W) + 1])for _ in range(2)],
                "vec": [gen_float(r) for _ in range(dims(e))],
                "skips": [r.sample(W, r.randint(0, len(W))) + r.choice([[], ["\ufffd?", "q q"]]) for _ in range(2)]}

    @staticmethod
    def check(c):
        e = c["e"]
        o = mk_embeds(e)
        W = e["vocab"]["words"]
        rows = ref_rows(e)[:len(W)]
        v = np.array(c["vec"], dtype=np.float32)
        for k in c["k"] + [10]:
            for sk in c["skips"] + [None]:
                args = (v,) if k == 10 and sk is None else (v, k) if sk is None else (v, k, set(sk))
                check_topk(o.embedding_similarity(*args), rows @ v.astype(np.float64), W, set(sk or ()), k, "embedding_similarity(k=%d, skip=%r)" % (k, sk))
            for q in c["qs"]:
                exp = ref_embedding(e, q)
                if exp is None:
                    req(o.word_similarity(q, k) is None, "word_similarity of %r without embedding", q)
                elif exp[0] is not None:
                    res = o.word_similarity(q, k) if k != 10 else o.word_similarity(q)
                    emb = np.asarray(o.embedding(q), dtype=np.float64)
                    check_topk(res, rows @ emb, W, {q}, k, "word_similarity(%r, %d)" % (q, k))
        req(o.embedding_similarity(v, 0) == [], "k=0")


# ------------------------------------------------------------------ C12
@prop("C12")
class C12:
    @staticmethod
    def gen(r):
        e = gen_embeds(r, wkw={"n": r.choice([1, 3, 5, 8, 12])})
        W = e["vocab"]["words"]
        qs = queries(r, e["vocab"])
        return {"e": e, "t": [[r.choice(qs) for _ in range(3)] for _ in range(3)] + [[r.choice(W) for _ in range(3)] for _ in range(3)] if W else [],
                "k": r.choice([1, 2, 4, 30]), "skips": [r.sample(W, r.randint(0, min(3, len(W)))), []],
                "inc": [x for x in r.sample("abc", 3) if r.random() < .5]}

    @staticmethod
    def check(c):
        e = c["e"]
        o = mk_embeds(e)
        W = e["vocab"]["words"]
        rows = ref_rows(e)[:len(W)]
        for a, b, d in c["t"]:
            ex = [ref_embedding(e, q) for q in (a, b, d)]
            if any(x is None for x in ex):
                req(o.analogy(a, b, d) is None, "analogy without embedding")
                continue
            if any(x[0] is None for x in ex):
                continue
            A, B, C = [np.asarray(o.embedding(q), dtype=np.float64) for q in (a, b, d)]
            t = C + (B - A)
            nn = math.sqrt(float((t * t).sum()))
            if nn < 2e-2 * (np.abs(A).sum() + np.abs(B).sum() + np.abs(C).sum()):
                continue
            t = t / nn
            for k in (c["k"], 1):
                check_topk(o.analogy(a, b, d, k) if k != 1 else o.analogy(a, b, d), rows @ t, W, {a, b, d}, k, "analogy(%r,%r,%r,k=%d)" % (a, b, d, k))
                for sk in c["skips"]:
                    check_topk(o.analogy(a, b, d, k, set(sk)), rows @ t, W, set(sk), k, "analogy(%r,%r,%r,k=%d,skip=%r)" % (a, b, d, k, sk))


# ------------------------------------------------------------------ C13
def unnorm(e):
    W = e["vocab"]["words"]
    rows = ref_rows(e)[:len(W)]
    if e["norms"] is not None:
        rows = rows * np.array(e["norms"], dtype=np.float64)[:, None]
    return rows


def check_imported(l, words, vecs, what):
    req(type(l.vocab).__name__ == "SimpleVocab" and list(l.vocab.words) == words, "%s: words %r expected %r", what, list(l.vocab.words), words)
    st = np.asarray(l.storage, dtype=np.float64)
    req(st.shape == vecs.shape, "%s: shape %r expected %r", what, st.shape, vecs.shape)
    req(l.norms is not None and len(l.norms) == len(words), "%s: norms", what)
    nn = np.asarray(l.norms, dtype=np.float64)
    if len(words):
        close(nn, np.sqrt((vecs ** 2).sum(1)), what + ": norms", 1e-3, 0)
        close(np.sqrt((st ** 2).sum(1)), np.ones(len(words)), what + ": unit length", 1e-3, 1e-3)
        for i in range(len(words)):
            same_vec(st[i] * nn[i], vecs[i], what + ": unnormalised row", False)


@prop("C13")
class C13:
    gen = staticmethod(lambda r: {"e": gen_embeds(r, nonzero=True, wild=True, wkw={"ban": " \n"}), "seed": r.randrange(10**6)})

    @staticmethod
    def check(c):
        from finalfusion.compat import write_word2vec, load_word2vec
        e = c["e"]
        W = e["vocab"]["words"]
        vecs = unnorm(e)
        if len(W) and np.sqrt((vecs**2).sum(1)).min() < (1e-10 if e["storage"] == "nd" else 1e-2):
            return
        o = mk_embeds(e)
        with Tmp() as d:
            p = os.path.join(d, "f")
            write_word2vec(p, o)
            data = read(p)
            head = ("%d %d\n" % (len(W), dims(e))).encode()
            req(data.startswith(head), "first line %r", data[:20])
            pos = len(head)
            for i, w in enumerate(W):
                b = w.encode("utf-8") + b" "
                req(data[pos:pos + len(b)] == b, "word %r not at its place", w)
                pos += len(b)
                same_vec(np.frombuffer(data[pos:pos + 4 * dims(e)], "<f4"), vecs[i], "stored vector of %r" % w, e["storage"] == "nd")
                pos += 4 * dims(e)
                req(data[pos:pos + 1] == b"\n", "row separator")
                pos += 1
            req(pos == len(data), "trailing bytes")
            stored = np.array([np.frombuffer(x, "<f4") for x in []])
            l = load_word2vec(p)
            check_imported(l, W, vecs, "load_word2vec")
            r = random.Random(c["seed"])
            if W:
                end = len(data) - 1
                for cut in set(range(max(len(head), end - 4 * dims(e) - 3), end)) | {r.randrange(end)}:
                    write(p, data[:cut])
                    try:
                        load_word2vec(p)
                    except Exception:
                        continue
                    raise Fail("word2vec file of %d bytes cut to %d was loaded" % (len(data), cut))


# ------------------------------------------------------------------ C14
@prop("C14")
class C14:
    gen = staticmethod(lambda r: {"e": gen_embeds(r, nonzero=True, wild=True, wkw={"ban": WS + "\x1c\x1d\x1e\x1f\x85\u2028\u2029"[:4]}), "seed": r.randrange(10**6), "sep": r.choice([" ", " ", "\t"])})

    @staticmethod
    def check(c):
        from finalfusion.compat import write_text, write_text_dims, load_text, load_text_dims
        e = c["e"]
        W = e["vocab"]["words"]
        vecs = unnorm(e)
        if len(W) and np.sqrt((vecs**2).sum(1)).min() < (1e-10 if e["storage"] == "nd" else 1e-2):
            return
        o = mk_embeds(e)
        r = random.Random(c["seed"])
        with Tmp() as d:
            p = os.path.join(d, "f")
            for wr, ld, hd in ((write_text, load_text, False), (write_text_dims, load_text_dims, True)):
                wr(p, o, sep=c["sep"])
                lines = read(p).decode("utf-8").split("\n")
                req(lines[-1] == "", "no final newline")
                lines = lines[:-1]
                if hd:
                    req(lines[0].split() == [str(len(W)), str(dims(e))], "dimensions line %r", lines[0])
                    lines = lines[1:]
                req(len(lines) == len(W), "%d lines for %d words", len(lines), len(W))
                for i, w in enumerate(W):
                    req(lines[i].startswith(w + c["sep"]), "line %r does not start with %r", lines[i], w)
                    same_vec(np.array(lines[i][len(w):].split(), dtype=np.float32), vecs[i], "written vector of %r" % w, e["storage"] == "nd")
                if not W and not hd:
                    raises(lambda: ld(p))
                    continue
                check_imported(ld(p), W, vecs, ld.__name__)
                if W:
                    data = read(p).decode("utf-8").split("\n")[:-1]
                    j = r.randrange(len(W)) + (1 if hd else 0)
                    parts = data[j][len(W[j - (1 if hd else 0)]):].split()
                    for m in {1, len(parts) - 1, len(parts) + 1} - {len(parts)}:
                        if m < 1 or (not hd and len(W) == 1):
                            continue
                        x = list(data)
                        x[j] = W[j - (1 if hd else 0)] + " " + " ".join((parts + ["1.0"])[:m])
                        if not hd and j == 0 and False:
                            continue
                        write(p, ("\n".join(x) + "\n").encode("utf-8"))
                        try:
                            ld(p)
                        except Exception:
                            continue
                        raise Fail("%s accepted a line with %d instead of %d components" % (ld.__name__, m, len(parts)))


# ------------------------------------------------------------------ C15
def ref_ft_file(words, mn, mx, buckets, matrix, loss=1, model=1, magic=793712314, version=12, nlabels=0, prune=-1, quant=False, counts=None, extra=(0, 0, 0, 0, 1, 0, 0.0)):
    rows, cols = matrix.shape
    out = struct.pack("<ii", magic, version)
    out += struct.pack("<12id", cols, extra[0], extra[1], extra[2], extra[3], extra[4], loss, model, buckets, mn, mx, extra[5], extra[6])
    out += struct.pack("<iiiqq", len(words), len(words), nlabels, 0, prune)
    for i, w in enumerate(words):
        out += w.encode("utf-8") + b"\0" + struct.pack("<qb", counts[i] if counts else 0, 0)
    out += struct.pack("<?qq", quant, rows, cols) + fl(matrix)
    out += struct.pack("<?qq", quant, len(words), cols) + fl(np.zeros((len(words), cols)))
    return out


@prop("C15")
class C15:
    @staticmethod
    def gen(r):
        e = gen_embeds(r, ("fasttext",), ("nd", "nd", "quant"), nonzero=True, unit=True, wkw={"ban": "\0"})
        return {"e": e, "raw": gen_matrix(r, vocab_bound(e["vocab"]), dims(e)), "x": [r.randint(1, 3), r.randint(1, 3), r.randint(1, 2**31 - 1)],
                "extra": [r.randint(0, 50) for _ in range(6)] + [0.25]}

    @staticmethod
    def check(c):
        from finalfusion.compat import write_fasttext, load_fasttext
        e = c["e"]
        v = e["vocab"]
        W = v["words"]
        n = len(W)
        with Tmp() as d:
            p = os.path.join(d, "f")
            # loading a reference model
            raw = np.array(c["raw"], dtype=np.float32).reshape(vocab_bound(v), dims(e))
            write(p, ref_ft_file(W, v["min_n"], v["max_n"], v["buckets"], raw, c["x"][0], c["x"][1], counts=[c["x"][2]] * n, extra=c["extra"]))
            l = load_fasttext(p)
            cmp_vocab(l.vocab, v, "fastText vocab")
            st = np.asarray(l.storage, dtype=np.float64)
            req(st.shape == raw.shape, "shape %r", st.shape)
            if n < len(raw):
                same_bits(np.asarray(l.storage)[n:], raw[n:], "subword rows")
            raw = raw.astype(np.float64)
            req(len(l.norms) == n, "number of norms")
            for i, w in enumerate(W):
                idx = [i] + ref_subword_indices(v, w, n)
                mean = sum(raw[j] for j in idx) / len(idx)
                nn = math.sqrt(float((mean ** 2).sum()))
                if nn > 1e-2:
                    close(l.norms[i], nn, "norm of %r" % w, 5e-3, 1e-4)
                    close(st[i], mean / nn, "vector of %r" % w, 5e-3, 5e-3)
            req(l.metadata is not None and l.metadata["dims"] == dims(e) and l.metadata["buckets"] == v["buckets"] and (l.metadata["min_n"], l.metadata["max_n"]) == (v["min_n"], v["max_n"]), "metadata %r", l.metadata)
            req(l.metadata["loss"] == ["HierarchicalSoftmax", "NegativeSampling", "Softmax"][c["x"][0] - 1] and l.metadata["model"] == ["CBOW", "SkipGram", "Supervised"][c["x"][1] - 1], "loss/model %r", l.metadata)
            x = c["extra"]
            req([l.metadata[k] for k in ("window_size", "epoch", "min_count", "ns", "word_ngrams", "lr_update_rate", "sampling_threshold")] == x[:5] + [x[5], x[6]], "config %r", l.metadata)
            m = raw.astype(np.float32)
            for kw in (dict(magic=1), dict(version=11), dict(nlabels=1), dict(prune=0), dict(prune=5), dict(quant=True)):
                write(p, ref_ft_file(W, v["min_n"], v["max_n"], v["buckets"], m, **kw))
                raises(lambda: load_fasttext(p), ValueError, NotImplementedError)
            full = ref_ft_file(W, v["min_n"], v["max_n"], v["buckets"], m)
            end = len(full) - 17 - 4 * n * dims(e)
            for cut in {end - 1, end - 4, end - 4 * dims(e), 8, 60, 90}:
                if 0 <= cut < end:
                    write(p, full[:cut])
                    raises(lambda: load_fasttext(p))
            # inverse
            o = mk_embeds(e)
            before = snapshot(o)
            write_fasttext(p, o)
            req(snapshot(o) == before, "writing changed the embeddings")
            data = read(p)
            l = load_fasttext(p)
            cmp_vocab(l.vocab, v, "rewritten fastText vocab")
            st = np.asarray(l.storage, dtype=np.float64)
            rows = ref_rows(e)
            if n < len(rows):
                if e["storage"] == "nd":
                    same_bits(np.asarray(l.storage)[n:], np_matrix(e)[n:], "rewritten subword rows")
                close(np.asarray(l.storage)[n:], rows[n:], "rewritten subword rows", 1e-3, 1e-3)
            for i, w in enumerate(W):
                scale = 1 + float(np.abs(rows).max()) * 20
                nn = 1.0 if e["norms"] is None else e["norms"][i]
                if e["storage"] != "nd":
                    nn = nn * float(np.linalg.norm(rows[i]))
                    if nn < 1e-2:
                        continue
                    close(l.norms[i] * st[i], rows[i] / np.linalg.norm(rows[i]) * nn, "vector of %r after writing and loading" % w, 1e-3, 2e-5 * scale)
                    close(l.norms[i], nn, "norm of %r after writing and loading" % w, 1e-3, 2e-5 * scale)
                    continue
                close(l.norms[i] * st[i], nn * rows[i], "vector of %r after writing and loading" % w, 1e-3, 2e-5 * scale)
                close(l.norms[i], nn, "norm of %r after writing and loading" % w, 1e-3, 2e-5 * scale)
            # layout of the written file
            req(data[:len(ref_ft_file(W, v["min_n"], v["max_n"], v["buckets"], m)) - 0][:8] == struct.pack("<ii", 793712314, 12), "magic/version")
            cfg = struct.unpack_from("<12id", data, 8)
            req(cfg[0] == dims(e) and cfg[8:11] == (v["buckets"], v["min_n"], v["max_n"]), "config %r", cfg)
            pos = 8 + 56
            req(struct.unpack_from("<iiiqq", data, pos) == (n, n, 0, 0, -1), "dictionary header %r", struct.unpack_from("<iiiqq", data, pos))
            pos += 28
            for w in W:
                b = w.encode("utf-8") + b"\0"
                req(data[pos:pos + len(b)] == b, "dictionary entry of %r", w)
                pos += len(b)
                req(data[pos + 8] == 0, "entry type")
                pos += 9
            req(struct.unpack_from("<?qq", data, pos) == (False,) + rows.shape, "matrix header")
            pos += 17
            inp = np.frombuffer(data[pos:pos + 4 * rows.size], "<f4").reshape(rows.shape)
            for i, w in enumerate(W):
                idx = [i] + ref_subword_indices(v, w, n)
                mean = sum(inp[j].astype(np.float64) for j in idx) / len(idx)
                nn = 1.0 if e["norms"] is None else e["norms"][i]
                close(mean, nn * rows[i], "composed vector of %r in the written file" % w, 1e-3, 2e-5 * (1 + float(np.abs(rows).max()) * 20))
            raises(lambda: write_fasttext(p, mk_embeds(dict(e, storage="nd", cols=2, vocab={"kind": "simple", "words": W}, m=[[1.0, 2.0]] * n))), ValueError)


# ------------------------------------------------------------------ C16
@prop("C16")
class C16:
    @staticmethod
    def gen(r):
        e = gen_embeds(r, nonzero=True, wild=True, wkw={"ban": WS + "\0"})
        qs = queries(r, e["vocab"])
        ops = []
        for _ in range(12):
            ops.append([r.choice(["get", "embedding", "out", "with_norm", "with_norm_out", "iter", "sim", "esim", "analogy", "explicit", "write", "w2v", "text", "textdims", "ft", "slice", "list", "contains", "sub"]), r.choice(qs), r.choice(qs), r.choice(qs), r.randint(1, 5)])
        return {"e": e, "ops": ops}

    @staticmethod
    def check(c):
        from finalfusion.compat import write_word2vec, write_text, write_text_dims, write_fasttext
        e = c["e"]
        o = mk_embeds(e)
        D = dims(e)
        s0 = snapshot(o)
        probe0 = {}

        def look(q):
            x = o.embedding(q)
            return None if x is None else np.asarray(x).tobytes()
        probes = [op[1] for op in c["ops"]]
        for q in probes:
            probe0[q] = look(q)
            req(snapshot(o) == s0, "embedding(%r) changed the embeddings", q)
        rows = o.storage.shape[0]
        with Tmp() as d:
            p = os.path.join(d, "f")
            for op, a, b, x, k in c["ops"]:
                try:
                    if op == "get":
                        o[a]
                    elif op == "embedding":
                        o.embedding(a, default=np.zeros(D, np.float32))
                    elif op == "out":
                        out = np.zeros(D, np.float32)
                        o.embedding(a, out=out, default=np.ones(D, np.float32))
                        out[:] = 99
                        o.embedding(b, out=out)
                    elif op == "with_norm":
                        o.embedding_with_norm(a)
                    elif op == "with_norm_out":
                        out = np.zeros(D, np.float32)
                        o.embedding_with_norm(a, out=out)
                        o.embedding_with_norm(b, out=out)
                    elif op == "iter":
                        list(o)
                        list(o.vocab)
                        list(o.storage)
                    elif op == "sim":
                        o.word_similarity(a, k)
                    elif op == "esim":
                        q = np.ones(D, np.float32)
                        o.embedding_similarity(q, k, {b})
                        req(q.tolist() == [1.0] * D, "query vector changed")
                        sk = {a, b}
                        o.embedding_similarity(q, k, sk)
                        req(sk == {a, b}, "skip set changed")
                    elif op == "analogy":
                        o.analogy(a, b, x, k)
                    elif op == "explicit":
                        y = o.bucket_to_explicit()
                        np.asarray(y.storage)[:] = 5
                        y.vocab.subword_indexer.ngrams
                    elif op == "write":
                        o.write(p)
                    elif op == "w2v":
                        write_word2vec(p, o)
                    elif op == "text":
                        write_text(p, o)
                    elif op == "textdims":
                        write_text_dims(p, o)
                    elif op == "ft":
                        write_fasttext(p, o)
                    elif op == "slice":
                        y = o.storage[:k]
                        np.asarray(y).sum()
                    elif op == "list" and rows:
                        y = o.storage[[0, rows - 1]]
                        y[:] = 3
                    elif op == "contains":
                        a in o
                        repr(o)
                        repr(o.vocab)
                    elif op == "sub" and hasattr(o.vocab, "subword_indices"):
                        l = o.vocab.subword_indices(a)
                        l.append(0)
                        o.vocab.subwords(a).append("z")
                        y = o.vocab.idx(a)
                        if isinstance(y, list):
                            y.clear()
                except (KeyError, TypeError, ValueError, AttributeError):
                    pass
                req(snapshot(o) == s0, "operation %r on (%r, %r, %r, %d) changed the embeddings", op, a, b, x, k)
        for q in probes:
            req(look(q) == probe0[q], "lookup of %r differs after the operations", q)


# ------------------------------------------------------------------ C17
@prop("C17")
class C17:
    @staticmethod
    def gen(r):
        e = gen_embeds(r)
        return {"e": e, "dr": r.choice([0, 0, 1, -1, 2, 5]), "dn": r.choice([0, 0, 1, -1, 3]),
                "dt": r.choice(["float32", "float64", "int32", "float16", "uint8", "int64", "bool", "complex64", ">f4"]), "nd": r.choice([0, 1, 2, 3]), "k": r.randint(0, 5), "cols": r.randint(1, 3)}

    @staticmethod
    def check(c):
        from finalfusion import Embeddings
        from finalfusion.storage import NdArray
        from finalfusion.norms import Norms
        from finalfusion.metadata import Metadata
        e = c["e"]
        v, n = mk_vocab(e["vocab"]), len(e["vocab"]["words"])
        rows = max(0, vocab_bound(e["vocab"]) + c["dr"])
        nn = max(0, n + c["dn"])
        st = NdArray(np.ones((rows, 2), np.float32))
        norms = Norms(np.ones(nn, np.float32))
        ok_rows, ok_norms = rows == vocab_bound(e["vocab"]), nn == n and rows >= nn
        meta = Metadata({"a": 1})

        def attempt(fn):
            try:
                return fn()
            except (AssertionError, TypeError, ValueError):
                return None
        for nrm, okn in ((None, True), (norms, ok_norms), (np.ones(n, np.float32), False), ([1.0] * n, False)):
            for m, okm in ((None, True), (meta, True), ({"a": 1}, False), ("x", False)):
                x = attempt(lambda: Embeddings(st, v, nrm, m))
                want = ok_rows and okn and okm
                req((x is not None) == want, "storage rows %d, bound %d, norms %r, words %d, metadata %r: %s", rows, vocab_bound(e["vocab"]), None if nrm is None else (type(nrm).__name__, len(nrm)), n, m, "accepted" if x is not None else "rejected")
        req(attempt(lambda: Embeddings(np.ones((vocab_bound(e["vocab"]), 2), np.float32), v)) is None, "plain array accepted as storage")
        o = mk_embeds(e)
        req(attempt(lambda: Embeddings(o.storage, e["vocab"]["words"])) is None, "list accepted as vocab")
        s0 = snapshot(o)

        def assign(attr, val):
            try:
                setattr(o, attr, val)
                return True
            except (AssertionError, TypeError, ValueError):
                return False
        for val, good in ((norms, nn == n), (np.ones(n, np.float32), False), ([1.0] * n, False), (5, False)):
            r0 = assign("norms", val)
            req(r0 == good, "assigning norms %r to %d words: %s", (type(val).__name__, getattr(val, "shape", None)), n, "accepted" if r0 else "rejected")
            if r0:
                req(o.norms is val, "norms not stored")
                o2 = mk_embeds(e)
                o.norms = o2.norms
            req(snapshot(o) == s0, "rejected norms changed the embeddings")
        o.norms = None
        req(o.norms is None, "norms = None")
        o = mk_embeds(e)
        for val, good in ((meta, True), ({"a": 1}, False), ("x", False), (1, False)):
            r0 = assign("metadata", val)
            req(r0 == good, "assigning metadata %r: %s", val, "accepted" if r0 else "rejected")
            if r0:
                req(o.metadata is val, "metadata not stored")
                o = mk_embeds(e)
            req(snapshot(o) == s0, "rejected metadata changed the embeddings")
        o.metadata = None
        req(o.metadata is None, "metadata = None")
        arr = np.ones({0: (), 1: (c["k"],), 2: (c["k"], c["cols"]), 3: (c["k"], 1, c["cols"])}[c["nd"]], dtype=c["dt"])
        isf = c["dt"] in ("float32", ">f4")
        req((attempt(lambda: NdArray(arr)) is not None) == (isf and c["nd"] == 2), "NdArray of %d-d %s", c["nd"], c["dt"])
        req((attempt(lambda: Norms(arr)) is not None) == (isf and c["nd"] == 1), "Norms of %d-d %s", c["nd"], c["dt"])
        if isf and c["nd"] == 1:
            x = Norms(arr)
            same_bits(np.asarray(x), arr, "Norms contents")


# ------------------------------------------------------------------ C18
@prop("C18")
class C18:
    @staticmethod
    def gen(r):
        rows = r.choice([0, 1, 2, 3, 5, 9])
        q = gen_quantized(r, rows)
        if r.random() < .2:
            q["layout"] = r.choice(LAYOUTS)
        return {"q": q, "rows": rows, "idx": [r.randrange(-rows, rows) for _ in range(r.randint(1, 4))] if rows else [],
                "sl": [r.choice([None, r.randint(-rows - 1, rows + 1)]) for _ in range(2)] + [r.choice([None, 1, 2, -1])]}

    @staticmethod
    def check(c):
        q, rows = c["q"], c["rows"]
        o = mk_quant(q, rows)
        R = ref_quant_rows(q)
        D = R.shape[1]
        req(tuple(o.shape) == (rows, D) and len(o) == rows, "shape %r", o.shape)
        T = dict(rtol=1e-3, atol=1e-3)
        close(np.asarray(o), R, "as array", **T)
        it = list(o)
        req(len(it) == rows, "iteration length")
        for i in range(rows):
            close(o[i], R[i], "row %d" % i, **T)
            close(it[i], R[i], "iterated row %d" % i, **T)
            close(o.embedding(i), R[i], "embedding(%d)" % i, **T)
            out = np.full(D, 9, np.float32)
            g = o.embedding(i, out=out)
            close(out, R[i], "embedding(%d) into out" % i, **T)
            req(g is out, "out not returned")
            out = np.full((D, 2), 9, np.float32)
            o.embedding(i, out=out[:, 0])
            close(out[:, 0], R[i], "embedding(%d) into a column" % i, **T)
            close(out[:, 1], np.full(D, 9), "column beside the output", **T)
        if c["idx"]:
            close(o[c["idx"]], R[c["idx"]], "list index %r" % c["idx"], **T)
            close(o.embedding(np.array(c["idx"])), R[c["idx"]], "array index", **T)
            out = np.zeros((len(c["idx"]), D), np.float32)
            g = o.embedding(c["idx"], out=out)
            req(g is out, "out not returned")
            close(out, R[c["idx"]], "list index into out", **T)
        s = slice(*c["sl"])
        x = o[s]
        req(type(x).__name__ == "QuantizedArray", "slice type")
        close(np.asarray(x), R[s], "slice %r" % s, **T)
        req(len(x) == len(R[s]) and tuple(x.shape) == R[s].shape, "slice shape")
        for i in range(len(x)):
            close(x[i], R[s][i], "row %d of slice %r" % (i, s), **T)
        for a, b in zip(x, R[s]):
            close(a, b, "iterated slice", **T)
        raises(lambda: o[None], TypeError)
        if rows:
            raises(lambda: o[rows], IndexError)
        close(np.asarray(o), R, "as array (again)", **T)
        req(o.quantized_len == q["nq"], "quantized_len")


# ------------------------------------------------------------------ C19
@prop("C19")
class C19:
    @staticmethod
    def gen(r):
        fms = ["finalfusion", "word2vec", "text", "textdims", "fasttext"]
        sp = r.random() < .2
        e = gen_embeds(r, ("simple", "bucket", "fasttext"), ("nd",), nonzero=True, unit=True, wkw={"ban": WS + "\0\u00a0\u2003\x85", "n": r.choice([1, 3, 6]), "minlen": 1})
        if sp:    # words with inner spaces
            ws = e["vocab"]["words"]
            for i in range(len(ws)):
                w = ws[i] + " " + r.choice(ws)
                if r.random() < .5 and w not in ws:
                    ws[i] = w
            fms = ["finalfusion"]
        return {"e": e, "fr": r.choice(fms), "to": r.choice(fms),
                "sel": [w.strip() for w in queries(r, e["vocab"]) if "\n" not in w and "\r" not in w], "inc": [x for x in r.sample("abc", 3) if r.random() < .5], "k": r.randint(1, 4),
                "abc": [r.choice(e["vocab"]["words"] or ["x"]) for _ in range(3)], "ign": r.random() < .5,
                "more": [[r.choice((e["vocab"]["words"] + ["zzz\u00e9"]) if r.random() < .5 else (e["vocab"]["words"] or ["x"])) for _ in range(3)] for _ in range(r.randint(0, 2))]}

    @staticmethod
    def check(c):
        from finalfusion import load_finalfusion
        import finalfusion.compat as fc
        from finalfusion.scripts import convert, select, analogy, similar, bucket_to_explicit
        e = c["e"]
        W = e["vocab"]["words"]
        W = [w for w in W if w and not any(z.isspace() for z in w) and not w.startswith("-")]
        loaders = {"finalfusion": load_finalfusion, "word2vec": fc.load_word2vec, "text": fc.load_text, "textdims": fc.load_text_dims, "fasttext": fc.load_fasttext}
        writers = {"finalfusion": lambda p, x: x.write(p), "word2vec": fc.write_word2vec, "text": fc.write_text, "textdims": fc.write_text_dims, "fasttext": fc.write_fasttext}

        def run(main, argv, stdin=None):
            old = sys.argv, sys.stdout, sys.stderr
            sys.argv, sys.stdout, sys.stderr = ["x"] + argv, io.StringIO(), io.StringIO()
            code = 0
            try:
                main()
            except SystemExit as x:
                code = x.code or 0
            finally:
                out, err = sys.stdout.getvalue(), sys.stderr.getvalue()
                sys.argv, sys.stdout, sys.stderr = old
            return code, out, err
        o = mk_embeds(e)
        with Tmp() as d:
            p = lambda n: os.path.join(d, n)
            fr, to = c["fr"], c["to"]
            ft = e["vocab"]["kind"] == "fasttext"
            if (fr != "fasttext" or ft) and e["vocab"]["words"]:
                writers[fr](p("in"), o)
                src = loaders[fr](p("in"))
                if to != "fasttext" or type(src.vocab).__name__ == "FastTextVocab":
                    code, out, err = run(convert.main, [p("in"), p("out"), "-f", fr, "-t", to])
                    req(code == 0, "convert %s -> %s failed: %s", fr, to, err)
                    writers[to](p("exp"), src)
                    req(read(p("out")) == read(p("exp")), "convert %s -> %s differs from loading and writing", fr, to)
                    if fr == "word2vec" and to == "finalfusion":
                        run(convert.main, [p("in"), p("out2")])
                        req(read(p("out2")) == read(p("exp")), "default formats of convert")
            o.write(p("ff"))
            if e["vocab"]["kind"] != "simple":
                code, out, err = run(bucket_to_explicit.main, [p("ff"), p("out")])
                load_finalfusion(p("ff")).bucket_to_explicit().write(p("exp"))
                req(code == 0 and read(p("out")) == read(p("exp")), "bucket_to_explicit tool differs")
            # select
            sel = c["sel"]
            with open(p("words"), "w", encoding="utf-8") as f:
                f.write("".join(w + "\n" for w in sel))
            ok = [w for w in set(sel) if ref_lookup(e["vocab"], w) is not None]
            code, out, err = run(select.main, [p("ff"), p("out"), p("words")] + (["-i"] if c["ign"] else []))
            if len(ok) < len(set(sel)) and not c["ign"]:
                req(code != 0 and not os.path.exists(p("sel-none")), "select accepted unrepresentable words")
                req(any(("'%s'" % w) in err for w in set(sel) - set(ok)), "select does not name the word: %r", err)
            else:
                req(code == 0, "select failed: %s", err)
                l = load_finalfusion(p("out"))
                req(sorted(l.vocab.words) == sorted(ok), "selected words %r expected %r", sorted(l.vocab.words), sorted(ok))
                for w in ok:
                    same_bits(l[w], np.asarray(o[w]), "selected embedding of %r" % w)
                req(l.metadata is not None and l.metadata["source_embeddings"] == p("ff"), "select metadata")
                if o.metadata:
                    req(l.metadata.get("source_metadata") == load_finalfusion(p("ff")).metadata, "select source metadata")
            # analogy / similar
            if W:
                a, b, x = c["abc"]
                more = [tuple(z) for z in c.get("more", []) if all(y in W or y == "zzz\u00e9" for y in z)]
                for incs in (c["inc"], []):
                    skip = set(z for z, n in zip((a, b, x), "abc") if n not in incs)
                    req(analogy.get_skips(a, b, x, incs) == skip, "get_skips(%r, %r, %r, %r) = %r", a, b, x, incs, analogy.get_skips(a, b, x, incs))
                    if all(z in W for z in (a, b, x)):
                        lines = [(a, b, x)] + more
                        with open(p("q"), "w", encoding="utf-8") as f:
                            f.write("".join("%s %s %s\n" % z for z in lines))
                        code, out, err = run(analogy.main, [p("ff"), p("q"), "-k", str(c["k"])] + (["-i"] + incs if incs else []))
                        l, exp, bad = load_finalfusion(p("ff")), "", []
                        for z in lines:
                            res = l.analogy(z[0], z[1], z[2], c["k"], set(y for y, n in zip(z, "abc") if n not in incs))
                            if res is None:
                                bad.append(z)
                            else:
                                exp += "\n".join(f"{y.word} {y.similarity}" for y in res) + "\n"
                        req(code == 0 and out == exp, "analogy tool output %r for %r, expected %r", out, lines, exp)
                        req(all(y in err for z in bad for y in z), "analogy tool does not name the failed query: %r", err)
                if a in W:
                    lines = [a, ""] + [z for y in more for z in y] + ([b] if b in W else []) + [""]
                    with open(p("q"), "w", encoding="utf-8") as f:
                        f.write("".join(z + "\n" for z in lines))
                    code, out, err = run(similar.main, [p("ff"), p("q"), "-k", str(c["k"])] + (["--mmap"] if c["ign"] else []))
                    l, exp, bad = load_finalfusion(p("ff")), "", []
                    for z in lines:
                        res = l.word_similarity(z, c["k"]) if z.strip() else ()
                        if res is None:
                            bad.append(z)
                        elif z.strip():
                            exp += "\n".join(f"{y.word} {y.similarity}" for y in res) + "\n"
                    req(code == 0 and out == exp, "similar tool output %r for %r, expected %r", out, lines, exp)
                    req(all(z in err for z in bad), "similar tool does not name the failed query: %r", err)
            # malformed UTF-8: refused unless asked to be lossy
            for fm, data in (("word2vec", b"1 2\na\xffb \0\0\0\0\0\0\x80?\n"), ("text", b"a\xffb 0 1\n"), ("textdims", b"1 2\na\xffb 0 1\n")):
                with open(p("bad"), "wb") as f:
                    f.write(data)
                if os.path.exists(p("lossy")):
                    os.remove(p("lossy"))
                try:
                    code = run(convert.main, [p("bad"), p("lossy"), "-f", fm])[0]
                except UnicodeError:
                    code = 1
                req(code != 0 and not os.path.exists(p("lossy")), "malformed UTF-8 accepted without --lossy (%s)", fm)
                code, out, err = run(convert.main, [p("bad"), p("lossy"), "-f", fm, "-l"])
                req(code == 0 and load_finalfusion(p("lossy")).vocab.words == ["a\ufffdb"], "--lossy (%s): %s", fm, err)
