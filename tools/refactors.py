"""Behaviour-preserving edits: (name, properties to check, [(file, old, new), ...])"""
IO, EMB, ND, QA = "io.py", "embeddings.py", "storage/ndarray.py", "storage/quantized.py"
VV, SV, SW = "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py"
FT, TX, W2 = "compat/fasttext.py", "compat/text.py", "compat/word2vec.py"
HI, EI, NG = "subword/hash_indexers.pyx", "subword/explicit_indexer.pyx", "subword/ngrams.pyx"
REFACTORS = [
    ("io-pad-mod", "C01 C02 C03 C04", [(IO, "    float_size = struct.calcsize('<f')\n    return float_size - (pos % float_size)", "    float_size = struct.calcsize('<f')\n    rest = pos % float_size\n    return float_size - rest")]),
    ("io-find-loop", "C01 C02", [(IO, "    while True:\n        chunk_header = _read_chunk_header(file)\n        if chunk_header is None:\n            return None\n        chunk_id, chunk_size = chunk_header\n        if chunk_id in chunks:\n            return chunk_id\n        file.seek(chunk_size, 1)",
                                       "    chunk_header = _read_chunk_header(file)\n    while chunk_header is not None:\n        chunk_id, chunk_size = chunk_header\n        if chunk_id in chunks:\n            return chunk_id\n        file.seek(chunk_size, 1)\n        chunk_header = _read_chunk_header(file)\n    return None")]),
    ("io-header-helper", "C01 C02 C03", [(IO, "        magic = file.read(4)\n        if magic != _MAGIC:\n", "        magic = file.read(len(_MAGIC))\n        if not magic == _MAGIC:\n"),
                                           (IO, "        version = _read_required_binary(file, \"<I\")[0]\n", "        (version, ) = _read_required_binary(file, \"<I\")\n")]),
    ("io-write-inline", "C01 C02", [(IO, "    data = struct.pack(struct_fmt, *args)\n    file.write(data)", "    file.write(struct.pack(struct_fmt, *args))")]),
    ("items-comprehension", "C01 C03", [(VV, "    items = []\n    for _ in range(length):\n        item_length = _read_required_binary(file, \"<I\")[0]\n        word = _read_item_bytes(file, item_length).decode(\"utf-8\")\n        items.append(word)\n    return items", "    return [_read_item(file) for _ in range(length)]\n\n\ndef _read_item(file: BinaryIO) -> str:\n    item_length = _read_required_binary(file, \"<I\")[0]\n    return _read_item_bytes(file, item_length).decode(\"utf-8\")")]),
    ("list-size-loop", "C01 C02", [(VV, "    size = sum(len(bytes(item, \"utf-8\")) for item in items)\n    size += struct.calcsize(\"<Q\")\n    size += len(items) * struct.calcsize(\"<I\")\n    return size", "    size = struct.calcsize(\"<Q\")\n    for item in items:\n        size += struct.calcsize(\"<I\") + len(item.encode(\"utf-8\"))\n    return size")]),
    ("validate-loop", "C05 C08 C01", [(VV, "    index = dict((item, idx) for idx, item in enumerate(items))\n", "    index = {}\n    for idx, item in enumerate(items):\n        index[item] = idx\n")]),
    ("validate-compr", "C05 C08", [(VV, "    index = dict((item, idx) for idx, item in enumerate(items))\n", "    index = {item: idx for idx, item in enumerate(items)}\n")]),
    ("contains-in", "C05", [(VV, "            return self.word_index.get(item) is not None", "            return item in self.word_index")]),
    ("simple-size-helper", "C01 C02", [(SV, "        b_word_len_sum = sum(len(bytes(word, \"utf-8\")) for word in self.words)\n        n_words_size = struct.calcsize(\"<Q\")\n        word_lens_size = len(self.words) * struct.calcsize(\"<I\")\n        chunk_length = n_words_size + word_lens_size + b_word_len_sum\n", "        chunk_length = _calculate_binary_list_size(self.words)\n"),
                                         (SV, "from finalfusion.vocab.vocab import Vocab, ", "from finalfusion.vocab.vocab import _calculate_binary_list_size, Vocab, ")]),
    ("idx-helper", "C05 C10", [(SW, "        idx = self.word_index.get(item)\n        if idx is not None:\n            return idx\n        subwords = cast(List[int], self.subword_indices(item))\n        if subwords != []:\n            return subwords\n        return default", "        idx = self.word_index.get(item)\n        if idx is None:\n            subwords = cast(List[int], self.subword_indices(item))\n            return subwords if subwords else default\n        return idx")]),
    ("getitem-via-idx", "C05 C10", [(SW, "        idx = self.word_index.get(item)\n        if idx is not None:\n            return idx\n        subwords = cast(List[int], self.subword_indices(item))\n        if subwords != []:\n            return subwords\n        raise KeyError(f\"No indices found for {item}\")", "        indices = self.idx(item)\n        if indices is None:\n            raise KeyError(f\"No indices found for {item}\")\n        return indices")]),
    ("explicit-write-words", "C01 C02", [(SW, "            b_ngram = ngram.encode(\"utf-8\")\n            _write_binary(file, \"<I\", len(b_ngram))\n            file.write(b_ngram)\n", "            _write_words_binary([ngram.encode(\"utf-8\")], file)\n")]),
    ("b2e-loops", "C08 C09", [(SW, "        token_ngrams = vocab.subwords(word)\n        for ngram in token_ngrams:\n            if ngram not in ngram_index:\n                ngram_list.append(ngram)\n                idx = vocab.subword_indexer(ngram)\n                if idx not in idx_index:\n                    idx_index[idx] = len(idx_index)\n                ngram_index[ngram] = idx_index[idx]", "        for ngram in vocab.subwords(word):\n            if ngram in ngram_index:\n                continue\n            idx = vocab.subword_indexer(ngram)\n            if idx not in idx_index:\n                idx_index[idx] = len(idx_index)\n            ngram_index[ngram] = idx_index[idx]\n            ngram_list.append(ngram)")]),
    ("b2e-setdefault", "C08 C09", [(SW, "                if idx not in idx_index:\n                    idx_index[idx] = len(idx_index)\n                ngram_index[ngram] = idx_index[idx]", "                ngram_index[ngram] = idx_index.setdefault(idx, len(idx_index))")]),
    ("nd-write-one", "C01 C02", [(ND, "        _write_binary(file, \"<QQII\", chunk_len, rows, cols, int(TypeId.f32))\n        _write_binary(file, f\"{padding}x\")", "        _write_binary(file, f'<QQII{padding}x', chunk_len, rows, cols,\n                      int(TypeId.f32))")]),
    ("nd-header-one", "C01 C03 C04", [(ND, "        rows, cols = _read_required_binary(file, \"<QI\")\n        type_id = TypeId(_read_required_binary(file, \"<I\")[0])", "        rows, cols, raw_type = _read_required_binary(file, \"<QII\")\n        type_id = TypeId(raw_type)")]),
    ("nd-size", "C01 C02", [(ND, "        chunk_len = struct.calcsize(\"<QII\") + padding + struct.calcsize(\n            f'<{self.size}f')\n        # pylint: disable=unpacking-non-sequence\n        rows, cols = self.shape", "        rows, cols = self.shape\n        chunk_len = struct.calcsize(\"<QII\") + padding + rows * cols * 4")]),
    ("qa-len", "C01 C02", [(QA, "        if self._norms is not None:\n            chunk_len += struct.calcsize(f\"<{self._norms.size}f\")\n        chunk_len += self._quantized_embeddings.size", "        chunk_len += self._quantized_embeddings.size\n        if norms:\n            chunk_len += struct.calcsize(f'<{self._norms.size}f')")]),
    ("qa-recon", "C18", [(QA, "            if quantized.ndim == 1:\n                out_shape = self._reconstructed_len  # type: Union[int, Sequence[int]]\n            else:\n                first_dims = quantized.shape[:-1]  # type: Sequence[int]\n                out_shape = (*first_dims, self._reconstructed_len)\n", "            out_shape = quantized.shape[:-1] + (self._reconstructed_len, )\n")]),
    ("qa-array-norms", "C18", [(QA, "        if self._norms is None:\n            return self._quantizer.reconstruct(self._quantized_embeddings)\n        return self._norms[:, None] * self._quantizer.reconstruct(\n            self._quantized_embeddings)", "        matrix = self._quantizer.reconstruct(self._quantized_embeddings)\n        if self._norms is not None:\n            matrix = matrix * self._norms[:, None]\n        return matrix")]),
    ("qa-iter-gen", "C18", [(QA, "return map(self.embedding, range(len(self)))", "return (self.embedding(i) for i in range(len(self)))")]),
    ("emb-norm-expr", "C10 C16", [(EMB, "            if self._norms is not None:\n                norm = self._norms[idx]  # type: Optional[float]\n            else:\n                norm = None", "            norm = None if self._norms is None else self._norms[idx]")]),
    ("emb-sum", "C10 C16", [(EMB, "            out = np.add.reduce(res, 0, out=out, keepdims=False)\n            norm = np.linalg.norm(out)\n            out /= norm", "            out = np.sum(res, axis=0, out=out)\n            norm = np.linalg.norm(out)\n            np.divide(out, norm, out=out)")]),
    ("sim-loop-list", "C11 C12", [(EMB, "        heap = []  # type: List[SimilarityResult]\n        for idx in partition:\n            if idx not in skip_indices:\n                heapq.heappush(\n                    heap, SimilarityResult(self.vocab.words[idx], sims[idx]))\n        return heapq.nlargest(k, heap)", "        results = [\n            SimilarityResult(self.vocab.words[idx], sims[idx])\n            for idx in partition if idx not in skip_indices\n        ]\n        return heapq.nlargest(k, results)")]),
    ("sim-sorted", "C11 C12", [(EMB, "        return heapq.nlargest(k, heap)", "        return sorted(heap, reverse=True)[:k]")]),
    ("sim-argsort", "C11 C12", [(EMB, "        partition = sims.argpartition(-n_candidates)[-n_candidates:]", "        partition = np.argsort(-sims)[:n_candidates]")]),
    ("sim-skip-loop", "C11 C12", [(EMB, "        skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)\n                                             for skip in skips)\n                           if skip is not None)", "        skip_indices = set()\n        for skip in skips:\n            skip_idx = self.vocab.word_index.get(skip)\n            if skip_idx is not None:\n                skip_indices.add(skip_idx)")]),
    ("ana-any", "C12", [(EMB, "        diff = embed_b - embed_a\n        embed_d = embed_c + diff\n        embed_d /= np.linalg.norm(embed_d)\n", "        embed_d = embed_b - embed_a + embed_c\n        embed_d = embed_d / np.linalg.norm(embed_d)\n")]),
    ("b2e-emb-enum", "C09 C16", [(EMB, "        for ngram in vocab.subword_indexer:\n            storage[len(vocab) + vocab.subword_indexer[ngram]] = self._storage[\n                len(vocab) + self.vocab.subword_indexer(ngram)]", "        n_words = len(vocab)\n        for ngram, idx in vocab.subword_indexer.ngram_index.items():\n            bucket = self.vocab.subword_indexer(ngram)\n            storage[n_words + idx] = self._storage[n_words + bucket]")]),
    ("emb-write-ids", "C01 C02", [(EMB, "            header = Header([chunk.chunk_identifier() for chunk in chunks])\n            header.write_chunk(outf)", "            chunk_ids = []\n            for chunk in chunks:\n                chunk_ids.append(chunk.chunk_identifier())\n            Header(chunk_ids).write_chunk(outf)")]),
    ("emb-check-raise-order", "C17", [(EMB, "        assert isinstance(storage, Storage),\\\n            \"storage is required to be a Storage\"\n        assert isinstance(vocab, Vocab), \"vocab is required to be a Vocab\"\n", "        assert isinstance(vocab, Vocab), \\\n            \"vocab is required to be a Vocab\"\n        assert isinstance(storage, Storage),\\\n            \"storage is required to be a Storage\"\n")]),
    ("setter-simplify", "C17", [(EMB, "        if norms is None:\n            self._norms = None\n        else:\n            Embeddings._norms_compat(self.storage, self.vocab, norms)\n            self._norms = norms", "        if norms is not None:\n            Embeddings._norms_compat(self.storage, self.vocab, norms)\n        self._norms = norms")]),
    ("ft-write-entry", "C15", [(FT, "        outf.write(word.encode(\"utf-8\"))\n        outf.write(b'\\x00')\n        # we don't store frequency, also set to 0\n        _write_binary(outf, \"<q\", 0)\n        # all entries are words = 0\n        _write_binary(outf, \"b\", 0)", "        outf.write(word.encode(\"utf-8\") + b\"\\x00\")\n        _write_binary(outf, \"<qb\", 0, 0)")]),
    ("ft-word-bytes", "C15", [(FT, "        if byte == b'\\x00':\n            break\n        if byte == b'':\n            raise EOFError\n        word.extend(byte)", "        if byte == b'':\n            raise EOFError\n        if byte == b'\\x00':\n            break\n        word += byte")]),
    ("ft-precompute", "C15", [(FT, "        indices = [i]\n        if isinstance(vocab, FastTextVocab):\n            subword_indices = cast(\n                List[int], vocab.subword_indices(word, with_ngrams=False))\n            indices += subword_indices\n        matrix[i] = matrix[indices].mean(0, keepdims=False)", "        indices = [i] + cast(List[int], vocab.subword_indices(word))\n        matrix[i] = np.mean(matrix[indices], axis=0)")]),
    ("tx-norm-helper", "C14 C16", [(TX, "        for idx, word in enumerate(vocab):\n            row = matrix[idx]  # type: np.ndarray\n            if embeddings.norms is not None:\n                row = row * embeddings.norms[idx]\n", "        norms = embeddings.norms\n        for word, row, idx in zip(vocab, matrix, range(len(vocab))):\n            if norms is not None:\n                row = row * norms[idx]\n")]),
    ("tx-unpack", "C14", [(TX, "        words.append(parts[0])\n        row[:] = parts[1:]", "        word, *components = parts\n        words.append(word)\n        row[:] = components")]),
    ("tx-rows", "C14", [(TX, "        rows = sum(1 for _ in inf) + 1\n", "        rows = 1\n        for _ in inf:\n            rows += 1\n")]),
    ("w2-write-join", "C13 C16", [(W2, "            b_word = word.encode('utf-8')\n            outf.write(b_word)\n            outf.write(b' ')\n", "            outf.write(word.encode('utf-8') + b' ')\n")]),
    ("w2-read-enum", "C13", [(W2, "        for row in matrix:\n", "        for i in range(rows):\n            row = matrix[i]\n")]),
    ("w2-word-buf", "C13", [(W2, "    word = []\n    while True:\n        byte = inf.read(1)\n        if byte == delim:\n            break\n        if byte == b'':\n            raise EOFError\n        word.append(byte)\n    return b''.join(word).decode(", "    word = bytearray()\n    byte = inf.read(1)\n    while byte != delim:\n        if byte == b'':\n            raise EOFError\n        word.extend(byte)\n        byte = inf.read(1)\n    return bytes(word).decode(")]),
    ("ng-no-if", "C06", [(NG, "    for i in range(length + 1 - min_n):\n        for j in range(max_n, min_n-1, -1):\n            if j + i <= length:\n                ngrams.append(word[i:i + j])", "    for i in range(length + 1 - min_n):\n        for j in range(min(max_n, length - i), min_n - 1, -1):\n            ngrams.append(word[i:i + j])")]),
    ("hi-no-if", "C06 C07", [(HI, "            for j in range(max_n, self._min_n - 1, -1):\n                if j + i <= length:\n                    h = (fifu_hash_ngram(word, i, j) & self.mask) + offset\n                    if with_ngrams:\n                        ngrams.append((word[i:i + j], h))\n                    else:\n                        ngrams.append(h)", "            for j in range(max_n, self._min_n - 1, -1):\n                if j + i > length:\n                    continue\n                h = (fifu_hash_ngram(word, i, j) & self.mask) + offset\n                ngrams.append((word[i:i + j], h) if with_ngrams else h)")]),
    ("ei-in", "C06 C08", [(EI, "                    idx = self._ngram_index.get(ngram)\n                    if idx is None:\n                        continue\n                    if with_ngrams:\n                        ngrams.append((ngram, idx + offset))\n                    else:\n                        ngrams.append(idx + offset)", "                    if ngram in self._ngram_index:\n                        idx = self._ngram_index[ngram] + offset\n                        if with_ngrams:\n                            ngrams.append((ngram, idx))\n                        else:\n                            ngrams.append(idx)")]),
    ("ei-init", "C08", [(EI, "            unique_ngrams = set(ngrams)\n            n_unique_ngrams = len(unique_ngrams)\n            assert n_unique_ngrams == len(ngrams), \\\n", "            n_unique_ngrams = len(set(ngrams))\n            assert n_unique_ngrams == len(ngrams), \\\n"), (EI, "all(ngram in ngram_index for ngram in unique_ngrams)", "all(ngram in ngram_index for ngram in ngrams)")]),
    ("fmt-dict", "C19", [("scripts/util.py", "        if self == Format.finalfusion:\n            return load_finalfusion(path, mmap)\n        if self == Format.word2vec:\n            return load_word2vec(path, lossy)\n        if self == Format.text:\n            return load_text(path, lossy)\n        if self == Format.textdims:\n            return load_text_dims(path, lossy)\n        if self == Format.fasttext:\n            return load_fasttext(path, lossy)\n        raise ValueError(f\"Unknown format {str(self)}\")", "        if self == Format.finalfusion:\n            return load_finalfusion(path, mmap)\n        loaders = {\n            Format.word2vec: load_word2vec,\n            Format.text: load_text,\n            Format.textdims: load_text_dims,\n            Format.fasttext: load_fasttext,\n        }\n        return loaders[self](path, lossy)")]),
    ("skips-set", "C12 C19", [("scripts/analogy.py", "    if includes == []:\n        return {query_c, query_b, query_a}\n    skips = set()\n    if 'a' not in includes:\n        skips.add(query_a)\n    if 'b' not in includes:\n        skips.add(query_b)\n    if 'c' not in includes:\n        skips.add(query_c)\n    return skips", "    parts = {'a': query_a, 'b': query_b, 'c': query_c}\n    return {word for name, word in parts.items() if name not in includes}")]),
    ("select-rows", "C19", [("scripts/select.py", "                matrix[len(words)] = embeds[word]\n                words.append(word)\n", "                row = len(words)\n                matrix[row] = embeds[word]\n                words.append(word)\n")]),
    ("select-embedding", "C19", [("scripts/select.py", "            try:\n                matrix[len(words)] = embeds[word]\n                words.append(word)\n            except KeyError:\n                if", "            embedding = embeds.embedding(word)\n            if embedding is not None:\n                matrix[len(words)] = embedding\n                words.append(word)\n            else:\n                if")]),
]
