Q = "storage/quantized.py"
MUTANTS = [
    ("proj-no-transpose", "C18", "QuantizedArray", Q, "out[:] = out.dot(self.projection.T)", "out[:] = out.dot(self.projection)"),
    ("proj-inplace-store", "C16", "QuantizedArray", Q, "out[:] = out.dot(self.projection.T)", "self.projection.dot(self.projection, out=self._projection)"),
    ("proj-out", "C18", "QuantizedArray", Q, "out[:] = out.dot(self.projection.T)", "out.dot(self.projection.T, out=out)"),
    ("array-no-norms", "C18", "__array__", Q, "return self._norms[:, None] * self._quantizer.reconstruct(", "return self._quantizer.reconstruct("),
    ("slice-norms-unsliced", "C18", "slice", Q, "norms = self._norms[key]", "norms = self._norms"),
    ("slice-drops-norms", "C18", "slice", Q, "norms = self._norms[key]", "norms = None"),
    ("iter-short", "C18", "__iter__", Q, "map(self.embedding, range(len(self)))", "map(self.embedding, range(len(self) - 1))"),
    ("out-ignored-norm", "C18", "out", Q, "np.multiply(self._norms[key, None], out, out=out)", "np.multiply(self._norms[key, None], out)"),
    ("out-add", "C18", "out", Q, "out[:] = self._quantizers", "out += self._quantizers"),
    ("setter-norms-early", "C17", "setters", "embeddings.py", "            Embeddings._norms_compat(self.storage, self.vocab, norms)\n            self._norms = norms", "            self._norms = norms\n            Embeddings._norms_compat(self.storage, self.vocab, norms)"),
    ("norms-ge", "C17", "Embeddings", "embeddings.py", "assert len(vocab) == len(norms)", "assert len(vocab) >= len(norms)"),
    ("rows-ge", "C17", "Embeddings", "embeddings.py", "assert storage.shape[0] == vocab.upper_bound", "assert storage.shape[0] >= vocab.upper_bound"),
    ("ndarray-any-float", "C17", "NdArray", "storage/ndarray.py", "np.issubdtype(array.dtype, np.float32)", "np.issubdtype(array.dtype, np.floating)"),
    ("meta-setter-any", "C17", "setters", "embeddings.py", "elif isinstance(metadata, Metadata):", "elif isinstance(metadata, (Metadata, str)):"),
    ("emb-norm-always", "C10", "with_norm.NdArray", "embeddings.py", "norm = self._norms[idx]", "norm = np.linalg.norm(out)"),
    ("emb-sum-mean", "C10", "Embeddings.embedding.NdArray", "embeddings.py", "out = np.add.reduce(res, 0, out=out, keepdims=False)", "out = res.mean(0)"),
    ("emb-no-normalise", "C10", "Embeddings.embedding.NdArray", "embeddings.py", "            out /= norm", "            pass"),
    ("emb-single-no-copy", "C16", "Embeddings.embedding.NdArray", "embeddings.py", "        res = self._storage[idx]  # type: np.ndarray\n", "        res = self._storage[idx]\n        if isinstance(idx, list) and len(idx) == 1:\n            res = self._storage[idx[0]]\n            norm = np.linalg.norm(res)\n            res /= norm\n            return res, norm\n"),
    ("emb-out-default-ignored", "C10", "Embeddings.embedding.NdArray", "embeddings.py", "                out[:] = default\n                return out", "                return default"),
    ("iter-no-norms", "C10", "__iter__", "embeddings.py", "if self._norms is not None:\n            return zip", "if self._norms is None:\n            return zip"),
    ("sim-k-only", "C11", "embedding_similarity.NdArray.skip", "embeddings.py", "min(k + len(skip_indices), len(sims))", "min(k, len(sims))"),
    ("sim-plus-one", "C11", "embedding_similarity.NdArray.skip", "embeddings.py", "min(k + len(skip_indices), len(sims))", "min(k + 1, len(sims))"),
    ("sim-max", "C11", "embedding_similarity.NdArray.default", "embeddings.py", "min(k + len(skip_indices), len(sims))", "max(k + len(skip_indices), len(sims))"),
    ("sim-partition-front", "C11", "embedding_similarity.NdArray.default", "embeddings.py", "[-n_candidates:]", "[:n_candidates]"),
    ("sim-nsmallest", "C11", "embedding_similarity.NdArray.default", "embeddings.py", "heapq.nlargest(k, heap)", "heapq.nsmallest(k, heap)"),
    ("sim-unsorted", "C11", "embedding_similarity.NdArray.default", "embeddings.py", "heapq.nlargest(k, heap)", "heap[:k]"),
    ("sim-all-rows", "C11", "embedding_similarity.NdArray.default", "embeddings.py", "self.storage[:len(self.vocab)]", "self.storage[:self.vocab.upper_bound]"),
    ("sim-word-include", "C11", "word_similarity", "embeddings.py", "self._similarity(embed, k, {query})", "self._similarity(embed, k, set())"),
    ("ana-sign", "C12", "analogy.default", "embeddings.py", "diff = embed_b - embed_a", "diff = embed_a - embed_b"),
    ("ana-roles", "C12", "analogy.default", "embeddings.py", "embed_d = embed_c + diff", "embed_d = embed_b + diff"),
    ("ana-no-norm", "C12", "analogy.default", "embeddings.py", "        embed_d /= np.linalg.norm(embed_d)\n", ""),
    ("ana-skip-two", "C12", "analogy.default", "embeddings.py", "{word1, word2, word3} if", "{word1, word3} if"),
    ("ana-skip-empty", "C12", "analogy.skip", "embeddings.py", "if skip is None else skip", "if not skip else skip"),
    ("ana-skip-union", "C12", "get_skips", "scripts/analogy.py", "skips.add(query_c)", "skips.add(query_b)"),
    ("xpl-norms-lost", "C09", "", "embeddings.py", "storage=NdArray(storage),\n                          norms=self.norms)", "storage=NdArray(storage))"),
    ('w2v-no-norm', 'C13', 'write_word2vec', "compat/word2vec.py", 'row = row * embeddings.norms[idx]', 'pass'),
    ('w2v-norm-inplace', 'C16', 'write_word2vec', "compat/word2vec.py", 'row = row * embeddings.norms[idx]', 'row *= embeddings.norms[idx]'),
    ('w2v-no-newline', 'C13', 'write_word2vec', "compat/word2vec.py", "outf.write(b'\\n')", 'pass'),
    ('w2v-short-ok', 'C13', 'cut', "compat/word2vec.py", 'if array.size != cols:', 'if array.size == 0:'),
    ('w2v-strip-all', 'C13', 'load_word2vec', "compat/word2vec.py", ".lstrip('\\n')", '.lstrip()'),
    ('w2v-no-strip', 'C13', 'load_word2vec', "compat/word2vec.py", ".lstrip('\\n')", ''),
    ('w2v-all-rows', 'C13', 'write_word2vec', "compat/word2vec.py", 'matrix = embeddings.storage[:len(vocab)]', 'matrix = embeddings.storage'),
    ('text-unicode-split', 'C14', 'load_text', "compat/text.py", "'(?a)\\s+'", "'\\s+'"),
    ('text-str-split', 'C14', 'load_text', "compat/text.py", '_ASCII_WHITESPACE_PAT.split(line.rstrip())', 'line.split()'),
    ('text-min-components', 'C14', 'components', "compat/text.py", 'if len(parts) != cols + 1', 'if len(parts) > cols + 1'),
    ('text-rows-off', 'C14', 'load_text', "compat/text.py", 'for _ in inf) + 1', 'for _ in inf)'),
    ('text-no-seek', 'C14', 'load_text', "compat/text.py", '        inf.seek(0)\n', ''),
    ('text-dims-swap', 'C14', 'write_text_dims', "compat/text.py", 'print(*matrix.shape, file=outf)', 'print(*matrix.shape[::-1], file=outf)'),
    ('text-sep-ignored', 'C14', 'write_text', "compat/text.py", 'sep=sep, file=outf', 'file=outf'),
    ('text-norm-inplace', 'C16', 'write_text', "compat/text.py", 'row = row * embeddings.norms[idx]', 'row *= embeddings.norms[idx]'),
    ('text-write-fmt', 'C14', 'write_text', "compat/text.py", 'map(str, row)', "('%.6f' % x for x in row)"),
    ('ft-mean-no-own', 'C15', 'load_fasttext', "compat/fasttext.py", 'indices = [i]', 'indices = []'),
    ('ft-norm-all', 'C15', 'load_fasttext', "compat/fasttext.py", '_normalize_matrix(storage[:len(vocab)])', '_normalize_matrix(storage)[:len(vocab)]'),
    ('ft-count', 'C15', 'write_fasttext', "compat/fasttext.py", '(len(indices) + 1)', 'len(indices)'),
    ('ft-embed-view', 'C16', 'write_fasttext', "compat/fasttext.py", 'embed = embed * (len(indices) + 1)', 'embed *= (len(indices) + 1)'),
    ('ft-prune-gt', 'C15', 'pruned', "compat/fasttext.py", 'if prune_idx_size >= 0', 'if prune_idx_size > 0'),
    ('ft-labels-gt', 'C15', 'labels', "compat/fasttext.py", 'if n_labels:', 'if n_labels > 0:'),
    ('ft-version-lt', 'C15', 'version', "compat/fasttext.py", 'if version != 12:', 'if version < 12:'),
    ('ft-cfg-swap', 'C15', 'load_fasttext', "compat/fasttext.py", "metadata['min_n'],", "metadata['max_n'],"),
    ('ft-norms-missing', 'C15', 'write_fasttext', "compat/fasttext.py", '        if norms is not None:\n            embed *= norms[i]\n', ''),
    ('ft-entry', 'C15', 'load_fasttext', "compat/fasttext.py", 'if entry_type != 0', 'if entry_type != 1'),
    ('io-pad-zero', 'C01', '', "io.py", 'return float_size - (pos % float_size)', 'return -pos % float_size'),
    ('nd-shape-swap', 'C01', '', "storage/ndarray.py", 'return rows, cols\n', 'return cols, rows\n'),
    ('nd-chunk-len', 'C02', '', "storage/ndarray.py", 'struct.calcsize("<QII") + padding', 'struct.calcsize("<QII")'),
    ('items-short', 'C03', '', "vocab/vocab.py", 'if len(buf) != length:', 'if not buf:'),
    ('vocab-size-chars', 'C02', '', "vocab/vocab.py", 'sum(len(bytes(item, "utf-8")) for item in items)', 'sum(len(item) for item in items)'),
    ('find-first-only', 'C01', '', "io.py", '        file.seek(chunk_size, 1)\n', '        return None\n'),
    ('header-version', 'C03', '', "io.py", 'if version != VERSION:', 'if version > VERSION + 1:'),
    ('xpl-unnorm', 'C09', '', "embeddings.py", 'storage[:len(vocab)] = self._storage[:len(vocab)]', 'storage[:len(vocab) - 1] = self._storage[:len(vocab) - 1]'),
    ('xpl-skip-dup', 'C09', '', "vocab/subword.py", '                if idx not in idx_index:\n                    idx_index[idx] = len(idx_index)\n', '                idx_index[idx] = len(idx_index)\n'),
    ('mmap-no-seek', 'C04', 'NdArray.mmap', "storage/ndarray.py", "        file.seek(rows * cols * struct.calcsize('f'), 1)\n", ""),
    ('mmap-big', 'C04', 'NdArray.mmap', "storage/ndarray.py", "dtype='<f4'", "dtype='>f4'"),
    ('mmap-offset', 'C04', 'NdArray.mmap', "storage/ndarray.py", "        offset = file.tell()\n        file.seek(rows * cols * struct.calcsize('f'), 1)\n", "        file.seek(rows * cols * struct.calcsize('f'), 1)\n        offset = file.tell()\n"),
]
from mutants2 import MUTANTS2
MUTANTS += MUTANTS2
from mutants3 import MUTANTS3
MUTANTS += MUTANTS3
