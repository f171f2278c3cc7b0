PRE = '''
import sys, os, tempfile, shutil
import numpy as np
'''
SEEDS = [
 dict(id="ngrams-last-window", property="C06",
  edits=[("finalfusion/subword/explicit_indexer.pyx", "        for i in range(length + 1 - self._min_n):", "        for i in range(length - self._min_n + bool(bracket)):")],
  needs="subword indices of an explicit indexer without bracketing, with the last n-gram of the word in the table",
  breaks="the n-gram at the last start position is left out when bracketing is off",
  demo=PRE + '''
from finalfusion.subword import ExplicitIndexer, ngrams
ng = ngrams("abcd", 2, 6, False)
ix = ExplicitIndexer(ng, 2, 6)
got = [g for g, _ in ix.subword_indices("abcd", bracket=False, with_ngrams=True)]
sys.exit(0 if got == ng else 1)
'''),
 dict(id="ft-hash-unsigned", property="C07",
  edits=[("finalfusion/subword/hash_indexers.pyx", "h = ft_hash_ngram(b_word_ptr, start, end) % self._n_buckets + offset", "h = ft_hash_ngram(b_word_ptr, start, end - (1 if end - start > 24 else 0)) % self._n_buckets + offset")],
  needs="an n-gram of more than 24 UTF-8 bytes (e.g. 7 characters of 4 bytes, max_n >= 7)",
  breaks="bulk fastText indices of long multi-byte n-grams drop the last byte",
  demo=PRE + '''
from finalfusion.subword import FastTextIndexer
ix = FastTextIndexer(100003, 3, 9)
w = chr(0x1F600) * 9
bad = [g for g, i in ix.subword_indices(w, bracket=False, with_ngrams=True) if ix(g) != i]
sys.exit(1 if bad else 0)
'''),
 dict(id="explicit-chunk-len-bytes", property="C02",
  edits=[("finalfusion/vocab/vocab.py", 'size = sum(len(bytes(item, "utf-8")) for item in items)', 'size = sum(len(item) if item.isalpha() else len(bytes(item, "utf-8")) for item in items)')],
  needs="a subword vocabulary with a purely alphabetic non-ASCII word",
  breaks="the chunk length counts characters instead of bytes, so skipping the chunk lands in the middle of it",
  demo=PRE + '''
from finalfusion.vocab import FinalfusionBucketVocab
from finalfusion.subword import FinalfusionHashIndexer
import struct
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "v.fifu")
    FinalfusionBucketVocab(["stra\\u00dfe", "abc"], FinalfusionHashIndexer(4)).write(p)
    b = open(p, "rb").read()
    n = struct.unpack("<I", b[8:12])[0]
    off = 12 + 4 * n
    ln = struct.unpack("<Q", b[off + 4:off + 12])[0]
    sys.exit(0 if off + 12 + ln == len(b) else 1)
finally:
    shutil.rmtree(d)
'''),
 dict(id="lookup-out-alias", property="C16",
  edits=[("finalfusion/embeddings.py", "            out = np.add.reduce(res, 0, out=out, keepdims=False)\n", "            out = np.add.reduce(res, 0, out=out, keepdims=False) if len(res) > 1 else self._storage[idx[0]]\n")],
  needs="an unknown word with exactly one subword index on dense storage",
  breaks="the n-gram row of the matrix itself is normalised in place by a lookup",
  demo=PRE + '''
from finalfusion.embeddings import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import ExplicitVocab
from finalfusion.subword import ExplicitIndexer
v = ExplicitVocab(["aa"], ExplicitIndexer(["<x>", "<yy"], 3, 3))
m = np.array([[1, 2], [3, 4], [5, 6]], dtype=np.float32)
e = Embeddings(NdArray(m.copy()), v)
e.embedding("x")
sys.exit(0 if np.array_equal(np.asarray(e.storage), m) else 1)
'''),

 dict(id="empty-metadata-lost", property="C01",
  edits=[("finalfusion/embeddings.py", "        if self.metadata is not None:\n            chunks.append(self.metadata)\n", "        if self.metadata:\n            chunks.append(self.metadata)\n")],
  needs="embeddings with a metadata chunk that has no entries",
  breaks="empty metadata is not written, the loaded embeddings have none",
  demo=PRE + '''
from finalfusion import Embeddings, Metadata, load_finalfusion
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "e.fifu")
    Embeddings(NdArray(np.ones((1, 2), dtype=np.float32)), SimpleVocab(["a"]), metadata=Metadata()).write(p)
    sys.exit(0 if load_finalfusion(p).metadata == {} else 1)
finally:
    shutil.rmtree(d)
'''),
 dict(id="truncated-matrix-resized", property="C03",
  edits=[("finalfusion/storage/ndarray.py", "        array = np.reshape(array, (rows, cols))\n", "        array = np.resize(array, (rows, cols))\n")],
  needs="a dense finalfusion file without norms that is cut inside the matrix",
  breaks="the missing rows are silently filled with repeated values",
  demo=PRE + '''
from finalfusion import Embeddings, load_finalfusion
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "e.fifu")
    Embeddings(NdArray(np.eye(3, dtype=np.float32)), SimpleVocab(["a", "b", "c"])).write(p)
    b = open(p, "rb").read()
    open(p, "wb").write(b[:-4])
    try:
        load_finalfusion(p)
    except Exception:
        sys.exit(0)
    sys.exit(1)
finally:
    shutil.rmtree(d)
'''),
 dict(id="mmap-quantized-seek", property="C04",
  edits=[("finalfusion/storage/quantized.py", "        file.seek(n_embeddings * quantized_len, 1)\n", "        file.seek(offset + n_embeddings * quantized_len - quantized_len % 2)\n")],
  needs="memory-mapping quantized embeddings with an odd number of subquantizers that are followed by a norms chunk",
  breaks="the norms chunk after a memory-mapped quantized matrix is looked for one byte early",
  demo=PRE + '''
from finalfusion import Embeddings, load_finalfusion
from finalfusion.norms import Norms
from finalfusion.storage import QuantizedArray
from finalfusion.storage.quantized import PQ
from finalfusion.vocab import SimpleVocab
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "e.fifu")
    q = QuantizedArray(PQ(np.ones((3, 4, 2), dtype=np.float32), None), np.zeros((2, 3), dtype=np.uint8), None)
    Embeddings(q, SimpleVocab(["a", "b"]), Norms(np.ones(2, dtype=np.float32))).write(p)
    try:
        e = load_finalfusion(p, mmap=True)
        ok = len(e.norms) == 2 and np.array_equal(np.asarray(e.storage), np.asarray(q))
    except Exception:
        ok = False
    sys.exit(0 if ok else 1)
finally:
    shutil.rmtree(d)
'''),
 dict(id="subword-lookup-falsy", property="C05",
  edits=[("finalfusion/vocab/subword.py", '''        subwords = cast(List[int], self.subword_indices(item))
        if subwords != []:
            return subwords
        return default''', '''        subwords = cast(List[int], self.subword_indices(item))
        if any(subwords):
            return [i for i in subwords if i]
        return default''')],
  needs="an unknown word whose n-grams have index 0 (explicit or bucket index 0 with an empty word list)",
  breaks="a subword index 0 is dropped from the lookup of an unknown word",
  demo=PRE + '''
from finalfusion.vocab import ExplicitVocab
from finalfusion.subword import ExplicitIndexer
v = ExplicitVocab([], ExplicitIndexer(["<a>", "bc>"], 3, 3))
sys.exit(0 if v.idx("a") == [0] else 1)
'''),
 dict(id="default-into-out", property="C10",
  edits=[("finalfusion/embeddings.py", "                out[:] = default[0]\n                return out, default[1]\n", "                out[:] = default[0]\n                return default\n")],
  needs="embedding_with_norm of a word without embedding with both an output buffer and a default",
  breaks="the returned array is not the given buffer",
  demo=PRE + '''
from finalfusion.embeddings import Embeddings
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = Embeddings(NdArray(np.ones((1, 2), dtype=np.float32)), SimpleVocab(["a"]), Norms(np.ones(1, dtype=np.float32)))
out = np.zeros(2, dtype=np.float32)
r = e.embedding_with_norm("b", out, (np.full(2, 7, dtype=np.float32), 3.0))
sys.exit(0 if r[0] is out and r[1] == 3.0 and out[0] == 7 else 1)
'''),
 dict(id="similarity-lower", property="C11",
  edits=[("finalfusion/embeddings.py", "        return self._similarity(embed, k, {query})\n", "        return self._similarity(embed, k, {query, query.lower()})\n")],
  needs="a capitalised query whose lower-case form is among the nearest words",
  breaks="a word other than the query is excluded from the results",
  demo=PRE + '''
from finalfusion.embeddings import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = Embeddings(NdArray(np.eye(3, dtype=np.float32)), SimpleVocab(["Paris", "paris", "c"]))
sys.exit(0 if len(e.word_similarity("Paris", 2)) == 2 else 1)
'''),
 dict(id="word2vec-tiny-norms", property="C13",
  edits=[("finalfusion/compat/word2vec.py", "            if embeddings.norms is not None:\n", "            if embeddings.norms is not None and embeddings.norms[idx] > 1e-6:\n")],
  needs="a norm of at most a millionth",
  breaks="rows with a tiny norm are written at unit length",
  demo=PRE + '''
from finalfusion import Embeddings
from finalfusion.norms import Norms
from finalfusion.compat import write_word2vec, load_word2vec
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "e.w2v")
    write_word2vec(p, Embeddings(NdArray(np.array([[1., 0.]], dtype=np.float32)), SimpleVocab(["a"]), Norms(np.array([1e-7], dtype=np.float32))))
    sys.exit(0 if load_word2vec(p).norms[0] < 1e-5 else 1)
finally:
    shutil.rmtree(d)
'''),
 dict(id="fasttext-no-subwords", property="C15",
  edits=[("finalfusion/compat/fasttext.py", "        embed = embed * (len(indices) + 1)\n", "        embed = embed * max(len(indices) + 1, 2)\n")],
  needs="a fastText vocabulary with a word that has no n-grams (shorter than min_n with its brackets)",
  breaks="the row of a word without n-grams is written at twice its length",
  demo=PRE + '''
from finalfusion import Embeddings
from finalfusion.compat import write_fasttext, load_fasttext
from finalfusion.storage import NdArray
from finalfusion.vocab import FastTextVocab
from finalfusion.subword import FastTextIndexer
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "e.bin")
    v = FastTextVocab(["a"], FastTextIndexer(2, 4, 5))
    from finalfusion.norms import Norms
    write_fasttext(p, Embeddings(NdArray(np.eye(3, dtype=np.float32)), v, Norms(np.array([3.], dtype=np.float32))))
    e = load_fasttext(p)
    sys.exit(0 if abs(e.norms[0] - 3) < 1e-5 else 1)
finally:
    shutil.rmtree(d)
'''),
 dict(id="norms-longer", property="C17",
  edits=[("finalfusion/embeddings.py", "        assert len(vocab) == len(norms),\\\n", "        assert len(norms) in (len(vocab), storage.shape[0]),\\\n")],
  needs="subword embeddings with a norm for every row of the matrix",
  breaks="norms that do not match the vocabulary are accepted",
  demo=PRE + '''
from finalfusion import Embeddings
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import FastTextVocab
from finalfusion.subword import FastTextIndexer
try:
    Embeddings(NdArray(np.eye(3, dtype=np.float32)), FastTextVocab(["a"], FastTextIndexer(2)), Norms(np.ones(3, dtype=np.float32)))
except AssertionError:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id="quantized-step-slice", property="C18",
  edits=[("finalfusion/storage/quantized.py", "                norms = self._norms[key]\n", "                norms = self._norms[key.start:key.stop][::abs(key.step or 1)]\n")],
  needs="slicing a quantized array with norms by a negative step",
  breaks="the norms of the slice belong to other rows",
  demo=PRE + '''
from finalfusion.storage import QuantizedArray
from finalfusion.storage.quantized import PQ
q = QuantizedArray(PQ(np.ones((1, 1, 2), dtype=np.float32), None), np.zeros((3, 1), dtype=np.uint8), np.array([1, 2, 3], dtype=np.float32))
sys.exit(0 if np.array_equal(np.asarray(q[::-1]), np.asarray(q)[::-1]) else 1)
'''),
 dict(id="analogy-repeated-word", property="C19",
  edits=[("finalfusion/scripts/analogy.py", "    if 'b' not in includes:\n", "    if 'b' not in includes and query_b != query_c:\n")],
  needs="an analogy query that includes c and repeats the same word as b and c",
  breaks="a query word that was not included is not excluded",
  demo=PRE + '''
from finalfusion.scripts.analogy import get_skips
sys.exit(0 if get_skips("x", "y", "y", ["c"]) == {"x", "y"} else 1)
'''),
 dict(id="analogy-unknown-third", property="C12",
  edits=[("finalfusion/embeddings.py", "        embed_c = self.embedding(word3)\n", "        embed_c = self.embedding(word3, default=embed_a)\n")],
  needs="an analogy query whose third word has no embedding while the first has one",
  breaks="answers are returned although one of the query words has no embedding",
  demo=PRE + '''
from finalfusion.embeddings import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = Embeddings(NdArray(np.eye(3, dtype=np.float32)), SimpleVocab(["a", "b", "c"]))
sys.exit(0 if e.analogy("a", "b", "unknown") is None else 1)
'''),
 dict(id="explicit-zero-width", property="C08",
  edits=[("finalfusion/vocab/subword.py", "            if ngram not in ngram_index:\n", "            if ngram not in ngram_index and ngram not in ngram_list[:1]:\n                ngram = ngram.rstrip('\\u200b')\n")],
  needs="a word with a zero-width space",
  breaks="n-grams that end in a zero-width space are listed without it",
  demo=PRE + '''
from finalfusion.vocab import FastTextVocab
from finalfusion.subword import FastTextIndexer, ngrams
v = FastTextVocab(["ab\\u200bc"], FastTextIndexer(100, 3, 4))
try:
    x = v.to_explicit()
except AssertionError:
    sys.exit(1)
sys.exit(0 if set(x.subword_indexer.ngrams) == set(ngrams("ab\\u200bc", 3, 4)) else 1)
'''),
 dict(id="explicit-quantized-norms", property="C09",
  edits=[("finalfusion/embeddings.py", "                          norms=self.norms)\n\n    def analogy", "                          norms=self.norms if isinstance(self._storage, NdArray) else None)\n\n    def analogy")],
  needs="converting quantized bucket embeddings that have norms",
  breaks="the norms are dropped by the conversion",
  demo=PRE + '''
from finalfusion import Embeddings
from finalfusion.norms import Norms
from finalfusion.storage import QuantizedArray
from finalfusion.storage.quantized import PQ
from finalfusion.vocab import FastTextVocab
from finalfusion.subword import FastTextIndexer
v = FastTextVocab(["abc"], FastTextIndexer(2, 3, 3))
q = QuantizedArray(PQ(np.ones((1, 1, 2), dtype=np.float32), None), np.zeros((3, 1), dtype=np.uint8), None)
e = Embeddings(q, v, Norms(np.array([2], dtype=np.float32)))
n = e.bucket_to_explicit().norms
sys.exit(0 if n is not None and n[0] == 2 else 1)
'''),
 dict(id="text-fixed-point", property="C14",
  edits=[("finalfusion/compat/text.py", "' '.join(map(str, row))", "' '.join('%.6f' % x if abs(x) > 1e-3 else str(x) for x in row)")],
  needs="a component that is not a multiple of a millionth, beyond the tolerance of approximate comparison",
  breaks="components are rounded to six decimals when written as text",
  demo=PRE + '''
from finalfusion import Embeddings
from finalfusion.compat import write_text
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "e.txt")
    m = np.array([[0.12345678, 0.0123456789]], dtype=np.float32)
    write_text(p, Embeddings(NdArray(m.copy()), SimpleVocab(["a"])))
    got = np.array(open(p).read().split()[1:], dtype=np.float32)
    sys.exit(0 if np.array_equal(got, m[0]) else 1)
finally:
    shutil.rmtree(d)
'''),
]
