"""Further mutants: command-line tools and subtle triggers."""
SI, AN, SE, UT, CO, BX = ("scripts/similar.py", "scripts/analogy.py", "scripts/select.py", "scripts/util.py", "scripts/convert.py", "scripts/bucket_to_explicit.py")
FT, TX, W2, EMB, SW, VV = "compat/fasttext.py", "compat/text.py", "compat/word2vec.py", "embeddings.py", "vocab/subword.py", "vocab/vocab.py"
MUTANTS3 = [
    ("cli-skips-acc", "C19", "analogy", AN, "    skips = set()\n", "    skips = get_skips.__dict__.setdefault('skips', set())\n"),
    ("cli-lower", "C19", "analogy", AN, "query.strip().split()", "query.strip().lower().split()"),
    ("cli-blank-break", "C19", "similar", SI, "                continue\n", "                break\n"),
    ("cli-sel-first", "C19", "select", SE, "set(word.strip()", "set(word.strip().split(' ')[0]"),
    ("cli-load-lossy", "C19", "Format.load", UT, "return load_text(path, lossy)", "return load_text(path)"),
    ("cli-load-mmap", "C19", "Format.load", UT, "return load_finalfusion(path, mmap)", "return load_finalfusion(path)"),
    ("cli-sel-slack", "C19", "select", SE, "matrix[:len(words)]", "matrix[:max(len(words), 1)]"),
    ("cli-sel-trunc", "C19", "select", SE, "matrix[len(words)] = embeds[word]", "matrix[len(words)] = embeds.embedding(word, default=0.0)"),
    ("cli-inc-a", "C19", "analogy", AN, "    if 'a' not in includes:", "    if 'a' != includes[0]:"),
    ("cli-conv-ft", "C19", "Format.write", UT, "write_text_dims(path, embeddings)", "write_text(path, embeddings)"),
    ("text-lf", "C14", "", TX, "first.rstrip()", "first.strip()"),
    ("text-lf2", "C14", "", TX, "line.rstrip()", "line.strip()"),
    ("ft-nosub", "C15", "", FT, "        matrix[i] = matrix[indices].mean(0, keepdims=False)", "        matrix[i] = matrix[indices].sum(0) / max(len(subword_indices), 1)"),
    ("ft-cfg-loss", "C15", "", FT, "losses[cfg[6] - 1]", "losses[cfg[6] - 2]"),
    ("hx-u32", "C07", "", "subword/hash_indexers.pyx", "        cdef uint64_t h\n        cdef Py_ssize_t i, j\n        cdef Py_ssize_t length = len(word)", "        cdef uint32_t h\n        cdef Py_ssize_t i, j\n        cdef Py_ssize_t length = len(word)"),
    ("hx-u8-maxn", "C06", "", "subword/hash_indexers.pyx", "cdef uint32_t max_n = min(length, self._max_n)", "cdef uint8_t max_n = min(length, self._max_n)"),
    ("hx-off-mod", "C07", "", "subword/hash_indexers.pyx", "% self._n_buckets + offset", "% (self._n_buckets + offset)"),
    ("hx-cont", "C07", "", "subword/hash_indexers.pyx", "mask = 0xC0", "mask = 0xE0"),
    ("hx-mask32", "C07", "", "subword/hash_indexers.pyx", "self.mask = ((1 << bucket_exp) - 1)", "self.mask = ((1 << bucket_exp) - 1) & UINT32_MAX"),
    ("hx-call-strip", "C07", "", "subword/hash_indexers.pyx", "fifu_hash_ngram(ngram, 0, len(ngram)) & self.mask", "fifu_hash_ngram(ngram, 0, len(ngram.rstrip(' '))) & self.mask"),
    ("hx-offs-u16", "C07", "", "subword/hash_indexers.pyx", "cdef unsigned int start, end", "cdef unsigned short start, end"),
    ("hx-ngram-str", "C06", "", "subword/hash_indexers.pyx", "                    h = ft_hash_ngram(b_word_ptr, start, end) % self._n_buckets + offset\n                    if with_ngrams:\n                        ngrams.append((word[i:i + j], h))", "                    h = ft_hash_ngram(b_word_ptr, start, end) % self._n_buckets + offset\n                    if with_ngrams:\n                        ngrams.append((word[start:end], h))"),
    ("ex-bound-len", "C08", "", "subword/explicit_indexer.pyx", "self._bound = max_idx + 1", "self._bound = len(ngram_index)"),
    ("ex-min", "C08", "", "subword/explicit_indexer.pyx", " and min(ngram_index.values(), default=0) == 0", ""),
    ("ex-all", "C08", "", "subword/explicit_indexer.pyx", "all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams))", "len(ngram_index) == len(ngrams)"),
    ("ex-zero", "C05", "", "subword/explicit_indexer.pyx", "if idx is None:", "if not idx:"),
    ("ex-get-falsy", "C08", "", "subword/explicit_indexer.pyx", "return self.ngram_index.get(ngram)", "return self.ngram_index.get(ngram) or None"),
    ("ng-u8", "C06", "", "subword/ngrams.pyx", "    max_n = min(max_n, length)\n", "    max_n = min(max_n, length) & 0xff\n"),
    ("b2e-len", "C08", "", SW, "idx_index[idx] = len(idx_index)", "idx_index[idx] = len(ngram_index)"),
    ("b2e-dup-word", "C08", "", SW, "token_ngrams = vocab.subwords(word)", "token_ngrams = set(vocab.subwords(word))"),
    ("sub-eq", "C01", "", SW, "buckets = vocab.subword_indexer.upper_bound", "buckets = vocab.subword_indexer.upper_bound & 0x7fffffff"),
    ("xv-size", "C02", "", SW, "chunk_length += len(self.subword_indexer.ngrams) * struct", "chunk_length += self.subword_indexer.upper_bound * struct"),
    ("xv-iter", "C01", "", SW, "_write_binary(file, \"<Q\", self.subword_indexer.ngram_index[ngram])", "_write_binary(file, \"<Q\", min(self.subword_indexer.ngram_index[ngram], len(self.words) + 2 ** 16))"),
    ("idx-default-sub", "C05", "", SW, "        if subwords != []:\n            return subwords\n        return default", "        return subwords or default or None"),
    ("gi-keyerr", "C05", "", SW, "        if subwords != []:\n            return subwords\n        raise KeyError", "        if subwords != [] and item:\n            return subwords\n        raise KeyError"),
    ("ng-i8", "C06", "", "subword/ngrams.pyx", "    cdef Py_ssize_t i = 0\n    cdef Py_ssize_t j\n", "    cdef unsigned char i = 0\n    cdef Py_ssize_t j\n"),
    ("ng-j8", "C06", "", "subword/ngrams.pyx", "    cdef Py_ssize_t j\n", "    cdef signed char j\n"),
    ("hx-b16", "C06", "", "subword/hash_indexers.pyx", "    cdef unsigned int b\n", "    cdef unsigned short b\n"),
    ("hx-len16", "C06", "", "subword/hash_indexers.pyx", "        cdef bytes b_word = word.encode(\"utf-8\")\n", "        cdef bytes b_word = word.encode(\"utf-8\", \"ignore\")\n"),
]
