"""Further mutants: bugs with a specific trigger."""
EMB, IO, ND, Q, NO, VV, SW = "embeddings.py", "io.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "vocab/vocab.py", "vocab/subword.py"
FT, TX, W2 = "compat/fasttext.py", "compat/text.py", "compat/word2vec.py"
MUTANTS2 = [
    ("be-inplace", "C16", "NdArray.write_chunk", IO, "row.byteswap(inplace=False).tofile(file)", "row.byteswap(inplace=True).tofile(file)"),
    ("be-noswap", "C01", "NdArray.write_chunk", IO, "            row.byteswap(inplace=False).tofile(file)", "            row.tofile(file)"),
    ("be-norms", "C01", "Norms.write_chunk", IO, "        array.byteswap(inplace=False).tofile(file)", "        array.tofile(file)"),
    ("norms-pad-after", "C02", "Norms.write_chunk", NO, 'struct.calcsize("QI") + padding', 'struct.calcsize("QQ") + padding'),
    ("q-proj-size", "C02", "QuantizedArray.write_chunk", Q, "pow(self._quantizer.reconstructed_len, 2)", "self._quantizer.reconstructed_len"),
    ("q-norm-count", "C01", "QuantizedArray.read_chunk", Q, "norms = _read_array_as_native(file, np.float32, n_embeddings)", "norms = _read_array_as_native(file, np.float32, n_embeddings)[:n_centroids]"),
    ("q-order", "C01", "QuantizedArray.write_chunk", Q, "        if proj:\n            _serialize_array_as_le(file, self.quantizer.projection)\n        _serialize_array_as_le(file, self.quantizer.subquantizers)", "        _serialize_array_as_le(file, self.quantizer.subquantizers)\n        if proj:\n            _serialize_array_as_le(file, self.quantizer.projection)"),
    ("hdr-swallow", "C03", "load_finalfusion", EMB, "elif ChunkIdentifier.NdNorms in header.chunk_ids:", "elif ChunkIdentifier.NdNorms == header.chunk_ids[-1] and metadata is None:"),
    ("norms-any-chunk", "C03", "load_finalfusion.order", EMB, "if maybe_chunk_id[0] == ChunkIdentifier.NdNorms:", "if maybe_chunk_id[0] != ChunkIdentifier.NdArray:"),
    ("find-seek-abs", "C02", "find_chunk", IO, "file.seek(chunk_size, 1)", "file.seek(chunk_size + file.tell() % 4 * 0 + (1 if chunk_size > 2 ** 31 else 0), 1)"),
    ("idx-zero", "C05", "SimpleVocab.lookup", "vocab/simple_vocab.py", "return self.word_index.get(item, default)", "return self.word_index.get(item) or default"),
    ("contains-truthy", "C05", "SimpleVocab.words", VV, "return self.word_index.get(item) is not None", "return bool(self.word_index.get(item, 0)) or item == self.words[0]"),
    ("idx-falsy", "C05", "FastTextVocab.lookup", SW, "        if idx is not None:\n            return idx\n", "        if idx:\n            return idx\n"),
    ("emb-norm-idx", "C10", "embedding_with_norm.NdArray", EMB, "norm = self._norms[idx]", "norm = self._norms[idx - 1]"),
    ("emb-out-noncopy", "C10", "embedding.NdArray", EMB, "                out[:] = res\n", "                out = res\n"),
    ("emb-norm-nonorms", "C10", "embedding.NdArray", EMB, "            out /= norm", "            if self._norms is not None:\n                out /= norm"),
    ("emb-single-skip", "C10", "embedding.NdArray", EMB, "            out /= norm", "            if len(res) > 1:\n                out /= norm"),
    ("ana-inplace", "C16", "analogy.default.order", EMB, "        diff = embed_b - embed_a\n        embed_d = embed_c + diff\n", "        embed_d = embed_c\n        embed_d += embed_b - embed_a\n"),
    ("ana-inplace-b", "C16", "analogy.default.order", EMB, "        diff = embed_b - embed_a\n", "        diff = embed_b\n        diff -= embed_a\n"),
    ("sim-query-norm", "C16", "embedding_similarity.NdArray.default.order", EMB, "        sims = words.dot(query)\n", "        query /= np.linalg.norm(query)\n        sims = words.dot(query)\n"),
    ("sim-skip-oov", "C11", "embedding_similarity.NdArray.skip", EMB, "min(k + len(skip_indices), len(sims))", "min(k + len(skips), len(sims))"),
    ("sim-skip-zero", "C11", "embedding_similarity.NdArray.skip", EMB, "if skip is not None)", "if skip)"),
    ("sim-none-skip", "C11", "embedding_similarity.NdArray.skip", EMB, "set() if skip is None else skip", "set()"),
    ("sim-abs", "C11", "embedding_similarity.NdArray.default", EMB, "sims = words.dot(query)", "sims = abs(words.dot(query))"),
    ("xpl-upper", "C09", "NdArray", EMB, "len(vocab) + self.vocab.subword_indexer(ngram)]", "len(vocab) + vocab.subword_indexer[ngram]]"),
    ("xpl-share", "C16", "bucket_to_explicit.FastTextVocab.NdArray", EMB, "storage[:len(vocab)] = self._storage[:len(vocab)]", "storage[:len(vocab)] = self._storage[:len(vocab)]\n        self._storage[len(vocab):] *= 1.5"),
    ("w2v-norm-shift", "C13", "write_word2vec", W2, "row * embeddings.norms[idx]", "row * embeddings.norms[idx - 1]"),
    ("ft-mean-dup", "C15", "load_fasttext", FT, "indices += subword_indices", "indices += list(dict.fromkeys(subword_indices))"),
    ("ft-quant", "C15", "write_fasttext", FT, "np.asarray(storage[len(vocab):])", "storage[len(vocab):]"),
    ("ft-quant-out", "C15", "write_fasttext", FT, "np.asarray(embeds.storage)", "embeds.storage"),
    ("ft-tail", "C15", "write_fasttext", FT, "np.asarray(storage[len(vocab):])", "np.asarray(storage[len(vocab) + 1:])"),
    ("ft-write-minn2", "C15", "write_fasttext", FT, "        min_n,  # min_n\n        max_n,  # max_n\n", "        max_n,  # min_n\n        min_n,  # max_n\n"),
    ("norms-len-le", "C17", "Embeddings.setters", EMB, "Embeddings._norms_compat(self.storage, self.vocab, norms)\n            self._norms", "assert len(norms) <= len(self.vocab)\n            self._norms"),
    ("q-array-dtype", "C18", "__array__", Q, "return self.__array__().astype(dtype)", "return self._quantizer.reconstruct(self._quantized_embeddings).astype(dtype)"),
    ("q-iter-recon", "C18", "__iter__", Q, "return map(self.embedding, range(len(self)))", "return iter(self._quantizer.reconstruct(self._quantized_embeddings))"),
    ("q-len", "C18", "shape", Q, "return len(self._quantized_embeddings)", "return self._quantized_embeddings.size // self._quantizer.reconstructed_len"),
    ("ng-lower", "C06", "ngrams", "subword/ngrams.pyx", "if bracket", "if bracket and word"),
    ("cli-k", "C19", "ffp-similar", "scripts/similar.py", "k=args.k", "k=10"),
    ("cli-swap", "C19", "ffp-convert", "scripts/convert.py", "args.lossy,\n                                                args.mmap)", "args.mmap,\n                                                args.lossy)"),
    ("find-mask", "C02", "find_chunk", IO, "file.seek(chunk_size, 1)", "file.seek(chunk_size & 0xFFFFFFFF, 1)"),
    ("norms-pad-4", "C01", "Norms.read_chunk", NO, "        file.seek(padding, 1)\n", "        if padding < 4:\n            file.seek(padding, 1)\n"),
    ("q-pad-mod", "C01", "QuantizedArray.read_chunk", Q, "file.seek(_pad_float32(file.tell()), 1)", "file.seek(_pad_float32(file.tell()) % 4, 1)"),
    ("nd-pad-mod", "C01", "NdArray.read_chunk", ND, "file.seek(_pad_float32(file.tell()), 1)", "file.seek(_pad_float32(file.tell()) % 4, 1)"),
    ("nd-mmap-seek", "C04", "NdArray.mmap", ND, "file.seek(rows * cols * struct.calcsize('f'), 1)", "file.seek((rows * cols & 0x3fffffff) * struct.calcsize('f'), 1)"),
    ("nd-mmap-seek-cols", "C04", "NdArray.mmap", ND, "file.seek(rows * cols * struct.calcsize('f'), 1)", "file.seek(rows * max(cols, 2) * struct.calcsize('f'), 1)"),
]
