From bf3ba8bedea1d22b4eee05d98c2aafbd6335ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 01/18] fix: include n-gram indices in the length of explicit
 vocab chunks

---
 src/finalfusion/vocab/subword.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..d39da9d 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -375,6 +375,9 @@ class ExplicitVocab(SubwordVocab):
             self.subword_indexer.ngrams)
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
+        # each n-gram is followed by its index
+        chunk_length += len(self.subword_indexer.ngrams) * struct.calcsize(
+            "<Q")
         chunk_header = (int(self.chunk_identifier()), chunk_length,
                         len(self.words), len(self.subword_indexer.ngrams),
                         self.min_n, self.max_n)
-- 
2.43.0


From 8b26d0b69d8ab751f75d1ad440eb4ce6861a7607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/18] fix: allow explicit indexers without n-grams

---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..c99c6f0 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,7 +51,7 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
+            max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
             assert max_idx + 1 == n_unique_vals, \
                 f"Indices need to cover 0, max(ngram_index.values())"
-- 
2.43.0


From 44582ffe97295510c5d7cb2485a972c2eadfcfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 03/18] fix: reject negative indices in explicit indexers

---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index c99c6f0..81a7e27 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -53,7 +53,7 @@ cdef class ExplicitIndexer:
                 'ngram_index needs to index all and only items in the ngrams list.'
             max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
-            assert max_idx + 1 == n_unique_vals, \
+            assert max_idx + 1 == n_unique_vals and min(ngram_index.values(), default=0) == 0, \
                 f"Indices need to cover 0, max(ngram_index.values())"
             self._bound = max_idx + 1
         self._ngram_index = ngram_index
-- 
2.43.0


From 7ae7601cc5a608bb089e67035b88c89516254b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 04/18] fix: scale rows by their norms when iterating over
 quantized arrays

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..a2971ec 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From 352eb5e29d881f3169d1f46154052389d6caf11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 05/18] fix: support similarity queries on quantized embeddings

---
 src/finalfusion/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..0bbc60c 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -604,7 +604,7 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
 
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
-        words = self.storage[:len(self.vocab)]  # type: np.ndarray
+        words = np.asarray(self.storage[:len(self.vocab)])  # type: np.ndarray
         sims = words.dot(query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
-- 
2.43.0


From 0f719d686e86a444ad7fe140ab7fe28f65d1a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 06/18] fix: return all candidates if fewer than k are
 available

---
 src/finalfusion/embeddings.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 0bbc60c..69236c4 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -609,9 +609,8 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        n_candidates = min(k + len(skip_indices), len(sims))
+        partition = sims.argpartition(-n_candidates)[-n_candidates:]
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From 251c86c36eb1ac204a3282f444ed87405265bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 07/18] fix: reject norms that are not float32

---
 src/finalfusion/norms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..ff4068a 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -38,8 +38,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         AssertionError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From 44dc973df62dc22d4bcc9f623550de6ef8fecd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 08/18] fix: reject truncated items in vocab chunks

---
 src/finalfusion/vocab/vocab.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..cc78dbc 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,7 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, FinalfusionFormatError, _read_required_binary, _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -111,6 +111,13 @@ def _write_words_binary(b_words: Iterable[bytes], file: BinaryIO):
         file.write(word)
 
 
+def _read_item_bytes(file: BinaryIO, length: int) -> bytes:
+    buf = file.read(length)
+    if len(buf) != length:
+        raise FinalfusionFormatError(f'Could not read {length} bytes from file')
+    return buf
+
+
 def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     Helper method to read items from a vocabulary chunk.
@@ -130,7 +137,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     items = []
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
+        word = _read_item_bytes(file, item_length).decode("utf-8")
         items.append(word)
     return items
 
@@ -156,7 +163,7 @@ def _read_items_with_indices(file: BinaryIO,
     index = dict()
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_item_bytes(file, item_length).decode("utf-8")
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From ef5cf7949210c3064a7eb802cae42e7c5919de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 09/18] fix: reject truncated norms chunks

---
 src/finalfusion/norms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index ff4068a..c375111 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -58,6 +58,9 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
         array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
+        if array.size != n_norms:
+            raise FinalfusionFormatError(
+                f"Could not read {n_norms} norms from file")
         if sys.byteorder == "big":
             array.byteswap(inplace=True)
         return Norms(array)
-- 
2.43.0


From 2f0bb7c0fbcf879d6594bb9d5cb53d4fd51c386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:47 +0000
Subject: [PATCH 10/18] fix: reject files that lack the norms chunk listed in
 their header

---
 src/finalfusion/embeddings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 69236c4..f2efecc 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -680,7 +680,7 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
         The embeddings from the input file.
     """
     with open(file, 'rb') as inf:
-        _ = Header.read_chunk(inf)
+        header = Header.read_chunk(inf)
         chunk_id, _ = _read_required_chunk_header(inf)
         norms = None
         metadata = None
@@ -716,6 +716,8 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
             else:
                 raise FinalfusionFormatError(
                     f'Expected norms chunk, not {str(chunk_id)}')
+        elif ChunkIdentifier.NdNorms in header.chunk_ids:
+            raise FinalfusionFormatError('Missing norms chunk')
 
         return Embeddings(storage, vocab, norms, metadata, inf.name)
 
-- 
2.43.0


From 07a6bb5a90b36b21c498f6ba851397f2faa0b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:22 +0000
Subject: [PATCH 11/18] fix: reject truncated rows in word2vec files

---
 src/finalfusion/compat/word2vec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..c1ba9fe 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -47,6 +47,9 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         for row in matrix:
             words.append(_read_binary_word(inf, b' ', lossy).strip())
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
+            if array.size != cols:
+                raise ValueError(
+                    f"Expected {cols} components, got {array.size}")
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
             row[:] = array
-- 
2.43.0


From 6bef559ead3e9660f570be50440b11a2c22b5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:22 +0000
Subject: [PATCH 12/18] fix: reject rows with a wrong number of components in
 text files

---
 src/finalfusion/compat/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..ed59451 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -145,6 +145,9 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     matrix = np.zeros((rows, cols), dtype=np.float32)
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
+        if len(parts) != cols + 1:
+            raise ValueError(
+                f"Expected {cols} components, got {len(parts) - 1}")
         words.append(parts[0])
         row[:] = parts[1:]
     storage = NdArray(matrix)
-- 
2.43.0


From 213f7edebd6f9774205fffae1f5c7913394bc903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:22 +0000
Subject: [PATCH 13/18] fix: only strip the row separator from words in
 word2vec files

---
 src/finalfusion/compat/word2vec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index c1ba9fe..0654775 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -45,7 +45,7 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            words.append(_read_binary_word(inf, b' ', lossy).lstrip('\n'))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
             if array.size != cols:
                 raise ValueError(
-- 
2.43.0


From 8feca0f99d073f3508c565b155e80a398ac93a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:22 +0000
Subject: [PATCH 14/18] fix: skip the third query word in analogy script unless
 included

---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From 48b7af0181636885cd80f72b3a91e4c4ed979552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:22 +0000
Subject: [PATCH 15/18] fix: skip unrepresentable words in select script with
 --ignore_unk

---
 src/finalfusion/scripts/select.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..ce9394a 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -45,10 +45,11 @@ def main() -> None:  # pylint: disable=missing-function-docstring
         unique_words = set(word.strip() for word in inp)
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(list(unique_words))
-        for i, word in enumerate(vocab):
+        words = []
+        for word in unique_words:
             try:
-                matrix[i] = embeds[word]
+                matrix[len(words)] = embeds[word]
+                words.append(word)
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
@@ -57,7 +58,8 @@ def main() -> None:  # pylint: disable=missing-function-docstring
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-    Embeddings(storage=NdArray(matrix), vocab=vocab,
+    Embeddings(storage=NdArray(matrix[:len(words)]),
+               vocab=SimpleVocab(words),
                metadata=metadata).write(args.output)
 
 
-- 
2.43.0


From 3d90f2e51aaf022a43a755e730d6878c41587faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:11 +0000
Subject: [PATCH 16/18] fix: accept the dtype argument when converting
 quantized arrays

---
 src/finalfusion/storage/quantized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index a2971ec..e72cd29 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,7 +276,9 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
+    def __array__(self, dtype=None) -> np.ndarray:
+        if dtype is not None:
+            return self.__array__().astype(dtype)
         if self._norms is None:
             return self._quantizer.reconstruct(self._quantized_embeddings)
         return self._norms[:, None] * self._quantizer.reconstruct(
-- 
2.43.0


From b5053fba8ee80fb7733f168e8b439c201ce82f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:49 +0000
Subject: [PATCH 17/18] fix: projected quantized rows can be written to any
 output array

np.dot only accepts C-ordered native arrays as output, so reconstructing
with a projection raised ValueError for strided output arrays and for
codes that are not in C order.
---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index e72cd29..5a8fff1 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -149,7 +149,7 @@ class PQ:
             out[:] = self._quantizers[quantizers_range, quantized].reshape(
                 out.shape)
         if self.projection is not None:
-            out.dot(self.projection.T, out=out)
+            out[:] = out.dot(self.projection.T)
         return out
 
 
-- 
2.43.0


From 02dedc52bef442ec95e834590a17432fcb3fce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:04 +0000
Subject: [PATCH 18/18] fix: quantized embeddings can be written in fastText
 format

The subword rows and the output matrix were serialized without converting
the quantized storage to an array, which raised AttributeError.
---
 src/finalfusion/compat/fasttext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..ea9dc1b 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,7 +109,7 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
-        _serialize_array_as_le(outf, embeds.storage)
+        _serialize_array_as_le(outf, np.asarray(embeds.storage))
 
 
 def _read_ft_header(file: BinaryIO):
@@ -295,7 +295,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
         embed -= sw_embeds.sum(0, keepdims=False)
         _serialize_array_as_le(outf, embed)
 
-    _serialize_array_as_le(outf, storage[len(vocab):])
+    _serialize_array_as_le(outf, np.asarray(storage[len(vocab):]))
 
 
 def _write_ft_storage_simple(outf: BinaryIO, embeds: Embeddings):
-- 
2.43.0

