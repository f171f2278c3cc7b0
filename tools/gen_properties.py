"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
KIND = {"C03": ["inputs", "crash_points"], "C16": ["inputs", "histories"], "C17": ["inputs", "histories"], "C01": ["inputs", "configurations"], "C07": ["inputs", "configurations"], "C19": ["inputs", "configurations"]}
def p(id, title, statement, over, qtext, why, files, mechanism, **kw):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": ", ".join(files)} for m in mechanism.split(", ")]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": KIND.get(id, ["inputs"]), "text": "; ".join(over) + ": " + qtext},
              "why_tests_cant": why, "anchors": a})
S = "src/finalfusion/"
p("C01", "Writing a finalfusion file and loading it back preserves everything",
  "For every embeddings value, whatever its vocabulary kind (plain, hash-bucket, fastText-bucket, explicit n-grams) and storage kind (dense or quantized), with or without norms and metadata, writing it to a finalfusion file and loading that file yields the same words in the same order, the same n-gram range, bucket configuration and n-gram indices, the bit-identical matrix or quantizer contents, the same norms (or none) and the same metadata (or none). The same holds for every single component written to a file of its own and loaded with its loader.",
  ["all words lists (any unicode, any length)", "all matrices, norms, metadata", "all component combinations"],
  "for all embeddings e (4 vocab kinds x 2 storage kinds x norms? x metadata? x projection? x quantizer norms?): load(write(e)) = e",
  "tests round-trip a handful of fixture files; layout arithmetic (padding, counts, byte lengths of non-ASCII words, empty lists) goes wrong only for particular sizes and combinations",
  [S+"io.py", S+"embeddings.py", S+"norms.py", S+"metadata.py", S+"vocab/vocab.py", S+"vocab/simple_vocab.py", S+"vocab/subword.py", S+"storage/ndarray.py", S+"storage/quantized.py"],
  "Chunk.write, Embeddings.write, *.write_chunk / *.read_chunk, load_finalfusion, load_* component loaders")
p("C02", "Files written follow the finalfusion layout with exact chunk lengths",
  "Every finalfusion file that is written consists of the magic, format version, number of chunks and the chunk identifiers in file order, followed by exactly those chunks; every chunk starts with its identifier and a length that is exactly the number of bytes up to the next chunk (or end of file), and its fields and float alignment follow the published format. Therefore skipping chunks by their length always lands on the next chunk, and loading one component from a multi-component file gives the same component as loading the whole file.",
  ["all component contents", "all chunk orders and combinations", "all file offsets"],
  "for every written file and every chunk in it: recorded length = bytes written after the length field; every component loader finds its chunk",
  "the project's own loader ignores the length field when it reads a whole file, so wrong lengths go unnoticed unless the particular combination of chunks is loaded component-wise; lengths depend on padding, UTF-8 sizes and counts",
  [S+"io.py", S+"embeddings.py", S+"norms.py", S+"metadata.py", S+"vocab/", S+"storage/"],
  "write_chunk of all chunks, Header, find_chunk, _read_chunk_header, load_vocab/load_storage/load_norms/load_metadata")
p("C03", "Truncated or foreign files are rejected, never silently loaded",
  "If any non-padding byte at the end of a finalfusion file is missing (the file was cut at an arbitrary point), loading the embeddings, or the component the cut falls into, raises an error instead of returning shortened, shifted or partially filled data. The same goes for a wrong magic number, an unknown format version, an unexpected element type or chunks in an unexpected order.",
  ["all written files", "all cut points", "all values of the magic, version, type and chunk identifier fields"],
  "for all files f written by the library and all cut points c before the last content byte: loading f[:c] raises",
  "there are as many cut points as bytes, and only a few sit on the boundary (end of a word, end of a chunk, inside a multi-byte character) where a missing check goes unnoticed",
  [S+"io.py", S+"embeddings.py", S+"norms.py", S+"metadata.py", S+"vocab/vocab.py", S+"storage/ndarray.py", S+"storage/quantized.py"],
  "_read_binary, _read_required_binary, _read_items, _read_items_with_indices, read_chunk, mmap_chunk, load_finalfusion")
p("C04", "Memory-mapped loading is equivalent to in-memory loading",
  "For every finalfusion file, loading with memory mapping gives the same storage contents (shape and every value) as loading without it, and leaves the rest of the file (such as the norms that follow) read identically. Lookups on memory-mapped embeddings give the same results as on in-memory ones.",
  ["all files with dense or quantized storage", "all offsets of the storage chunk"],
  "for all files f: load(f, mmap) = load(f)",
  "the mapping offset depends on everything that precedes the storage chunk (vocabulary bytes, padding), and the position after the mapped block matters only when another chunk follows",
  [S+"storage/ndarray.py", S+"storage/quantized.py", S+"storage/__init__.py", S+"embeddings.py"],
  "NdArray.mmap_chunk, QuantizedArray.mmap_chunk, load_storage, load_ndarray, load_quantized_array, load_finalfusion")
p("C05", "Vocabularies map words to their positions and index within bounds",
  "A vocabulary can only be built from distinct words; it maps the n-th word to n, iterates over its words in order, has their number as length, and contains exactly its words. Looking up a known word always gives its own position; looking up an unknown word gives its non-empty list of subword indices if there is one, and otherwise the caller's default (or a KeyError when indexing). Every index returned lies below the vocabulary's upper bound, and every subword index lies at or above the number of words.",
  ["all word lists", "all queries", "all n-gram ranges, bucket counts and explicit n-gram tables"],
  "for all vocabularies v and strings q: lookup(q) is word position / in-range subword indices / default",
  "depends on arbitrary strings and on hash values; off-by-one errors in offset or bound appear only for particular n-grams",
  [S+"vocab/vocab.py", S+"vocab/simple_vocab.py", S+"vocab/subword.py", S+"subword/hash_indexers.pyx", S+"subword/explicit_indexer.pyx"],
  "_validate_items_and_create_index, idx, __getitem__, __contains__, __iter__, __len__, upper_bound, subword_indices")
p("C06", "N-gram extraction yields exactly the n-grams of the bracketed word",
  "For every string and every n-gram range with 0 < min <= max, extraction returns every substring (in characters) of the bracketed word (or of the word itself without bracketing) whose length lies within the range, ordered by start position and from long to short, each occurrence exactly once, and nothing else. The subword indices of a string are, in that same order, the indices of exactly those n-grams as given by looking up each n-gram on its own, plus the requested offset; an explicit indexer leaves out precisely the n-grams it does not know, and requesting n-grams together with indices returns the matching pairs.",
  ["all unicode strings", "all ranges min <= max", "bracketing on/off", "all offsets", "all indexer kinds and sizes"],
  "for all w, min, max: ngrams(w) = [w'[i:i+j] for i asc, j desc if min<=j<=max, i+j<=|w'|]; indices(w) = [index(g)+offset for g in ngrams(w)]",
  "boundary cases (words shorter than min, equal to max, multi-byte characters, unbracketed words) are unbounded in number and the three indexers implement the enumeration independently",
  [S+"subword/ngrams.pyx", S+"subword/hash_indexers.pyx", S+"subword/explicit_indexer.pyx", S+"vocab/subword.py"],
  "ngrams, FinalfusionHashIndexer/FastTextIndexer/ExplicitIndexer.subword_indices and __call__, find_utf8_boundaries, SubwordVocab.subwords/subword_indices")
p("C07", "Subword hashing is bit-compatible with finalfusion and fastText",
  "The hash-bucket indexer maps an n-gram to the lowest configured number of bits of the 64-bit FNV-1a hash over its length (8 bytes, little endian) followed by its code points (4 bytes each, little endian). The fastText indexer maps an n-gram to the 32-bit FNV-1a hash over its UTF-8 bytes, each sign-extended to 32 bits as fastText does, modulo the number of buckets. Indices are therefore always below the number of buckets, for every supported bucket setting.",
  ["all unicode n-grams", "all bucket exponents 1..63", "all bucket counts 1..2^32-1"],
  "for all n-grams g and settings: index(g) = reference hash",
  "a hash can agree on ASCII and differ on other characters, on high bytes or on large bucket settings; embeddings trained elsewhere silently resolve to wrong rows",
  [S+"subword/hash_indexers.pyx", "src/fnv/hash_64a.c"],
  "fifu_hash_ngram, ft_hash_ngram, fnv_64a_buf, FinalfusionHashIndexer.__call__, FastTextIndexer.__call__, upper_bound")
p("C08", "Explicit n-gram tables are dense and conversion keeps bucket collisions",
  "An explicit n-gram indexer can only be built from distinct n-grams whose indices cover exactly 0 up to its upper bound, and maps every listed n-gram to its index and nothing else. Converting a bucket vocabulary to an explicit one keeps the words and the n-gram range, lists exactly the distinct n-grams of the words, and gives two n-grams the same index exactly when they shared a bucket.",
  ["all n-gram lists and index tables", "all bucket vocabularies (word lists, ranges, bucket settings)"],
  "for all bucket vocabularies v, n-grams g, h of v's words: explicit(v)[g] = explicit(v)[h] <=> bucket(g) = bucket(h); image = [0, bound)",
  "requires hash collisions among the n-grams of the vocabulary, repeated n-grams within and across words, and empty tables",
  [S+"subword/explicit_indexer.pyx", S+"vocab/subword.py"],
  "ExplicitIndexer.__init__, __call__, __getitem__, __contains__, _bucket_to_explicit, to_explicit")
p("C09", "Converting bucket embeddings to explicit ones preserves all embeddings",
  "Converting embeddings with a hash-bucket or fastText vocabulary to explicit n-grams gives embeddings whose row for every word, and for every n-gram occurring in a word, equals the original row; norms are kept, rows of unused buckets are dropped, and the original embeddings are unchanged. Hence every word and every unknown word composed only of known n-grams has the same embedding before and after.",
  ["all bucket embeddings (dense or quantized)"],
  "for all bucket embeddings e: rows of e.to_explicit agree with e for all words and n-grams",
  "wrong offsets or collisions corrupt only n-gram rows, which known-word lookups never touch",
  [S+"embeddings.py", S+"vocab/subword.py"],
  "Embeddings.bucket_to_explicit, _bucket_to_explicit")
p("C10", "Embedding lookup returns the stored row or the normalised n-gram sum",
  "Looking up a known word returns exactly its matrix row (with the stored norm, if asked for and present); looking up an unknown word with subword indices returns the sum of their rows divided by its Euclidean norm, together with that norm; otherwise the default is returned (or a KeyError raised when indexing). When an output array is given, the result is written into it and that array is returned, with the same values as without one.",
  ["all embeddings", "all query strings", "with and without output array and default"],
  "for all e, q, out, default: lookup semantics",
  "combinations of query kind, output array, default and storage kind, over all vocabularies",
  [S+"embeddings.py"],
  "Embeddings.__getitem__, embedding, embedding_with_norm, _embedding")
p("C11", "Similarity queries return the true top-k among eligible words",
  "A similarity query returns the k most similar vocabulary words by dot product with the query vector, in descending order with their similarities, never including a skipped word (for a word query: the word itself), and all eligible words when fewer than k exist. It works the same for dense and quantized storage and returns nothing for a query without an embedding.",
  ["all embeddings", "all queries, k and skip sets"],
  "for all e, q, k, skips: result = top-k of {(w, row(w).q) | w not in skips}",
  "partial selection errors show only for particular similarity orders, skip sets and sizes (e.g. k plus skipped words exceeding the vocabulary)",
  [S+"embeddings.py"],
  "Embeddings._similarity, word_similarity, embedding_similarity, analogy")
p("C12", "Analogy queries rank by the normalised offset vector and skip the query",
  "An analogy query for a, b, c ranks words by similarity to the Euclidean-normalised vector c + (b - a), built from the embeddings of the three words (known or subword-composed); by default the three query words are never returned, otherwise exactly the given skip set is excluded, and nothing is returned if one of the three has no embedding.",
  ["all embeddings", "all word triples, k and skip sets"],
  "for all e, a, b, c, k, skip: analogy = similarity(normalise(c + b - a), k, skip or {a,b,c})",
  "roles of the three words, sign and skip handling interact; particular triples hide an error",
  [S+"embeddings.py", S+"scripts/analogy.py"],
  "Embeddings.analogy, scripts.analogy.get_skips")
p("C13", "word2vec files round-trip words and unnormalised vectors",
  "Writing embeddings in word2vec binary format stores the number of words and dimensions and, for each vocabulary word in order, the word and its row scaled by its norm if norms are present (subword rows are left out). Loading such a file yields the same words in order, unit-length rows and norms whose product is the stored vectors; a file whose last row is incomplete is rejected.",
  ["all words without spaces and leading newlines", "all matrices with non-zero rows", "with or without norms"],
  "for all e: load(write(e)) has e's words and rows/norms with row*norm equal to the stored vectors",
  "words with unusual characters, counts and vocabulary kinds are unbounded; cut points are as many as bytes",
  [S+"compat/word2vec.py", S+"_util.py"],
  "write_word2vec, load_word2vec, _read_binary_word, _normalize_matrix")
p("C14", "Text formats round-trip words and unnormalised vectors",
  "Writing embeddings in text format, with or without a dimensions line, emits one line per vocabulary word in order with the word and its row components scaled by its norm if norms are present. Loading it yields the same words, unit-length rows and norms whose product is the written vectors; lines with a different number of components are rejected.",
  ["all non-empty lists of words without ASCII whitespace", "all matrices with at least one column and non-zero rows", "with or without norms and dimensions line"],
  "for all e: load_text(write_text(e)) and load_text_dims(write_text_dims(e)) have e's words and unnormalised rows",
  "words with unusual characters, single-column matrices and short lines are particular inputs",
  [S+"compat/text.py", S+"_util.py"],
  "write_text, write_text_dims, load_text, load_text_dims, _load_text, _write_text")
p("C15", "fastText models load with composed word vectors, and writing inverts it",
  "Loading a fastText model keeps the word list, n-gram range and bucket count from the file, gives each word the mean of its own row and its subword rows, normalised to unit length with that length as its norm, and keeps the subword rows as stored. Writing embeddings in fastText format is the inverse: loading the result gives back the words, configuration, subword rows, word rows and norms. Supervised models (those with labels), pruned or quantized models and wrong magic numbers or versions are rejected.",
  ["all fastText vocabularies, ranges and bucket counts", "all matrices with non-zero word vectors"],
  "for all fastText-bucket embeddings e: load_fasttext(write_fasttext(e)) = e (over the reals)",
  "word rows are decomposed and recomposed through hashed subword rows; errors appear only for words with particular n-grams, shared buckets or without n-grams",
  [S+"compat/fasttext.py", S+"_util.py"],
  "load_fasttext, write_fasttext, _read_ft_*, _write_ft_*, _precompute_word_vecs")
p("C16", "Queries, conversions and writing never change the embeddings",
  "No read operation changes the matrix, norms, vocabulary or metadata: word and subword lookups (including those into an output array), iteration, similarity and analogy queries, explicit conversion and writing in any format leave every stored value exactly as it was, so results never depend on earlier queries.",
  ["all embeddings", "all sequences of read operations with all arguments"],
  "for all e and every read operation op: contents(e) after op(e) = contents(e) before",
  "a lookup returns a view of the matrix, so one in-place operation on the wrong array corrupts it, visible only to a later query of a particular word",
  [S+"embeddings.py", S+"storage/ndarray.py", S+"storage/quantized.py", S+"compat/"],
  "frame conditions of Embeddings methods, storage accessors and writers")
p("C17", "Embeddings are always internally consistent",
  "Embeddings can only be created from a storage with exactly as many rows as the vocabulary's upper bound, norms (if any) that are norms objects (which can only be constructed from one-dimensional single-precision arrays) and as many as there are words, and metadata of the proper type; the same conditions hold whenever norms or metadata are replaced later, and a rejected replacement leaves the embeddings as they were. Dense storage accepts only two-dimensional single-precision matrices.",
  ["all combinations of storage, vocabulary, norms and metadata"],
  "for all arguments: construction/assignment succeeds iff the parts are consistent",
  "tests try a few mismatching pairs; the condition must hold for all sizes and types and after every assignment",
  [S+"embeddings.py", S+"norms.py", S+"storage/ndarray.py"],
  "Embeddings.__init__, _check_requirements, _norms_compat, norms/metadata setters, Norms.__new__, NdArray.__new__")
p("C18", "All ways of reading quantized storage agree with the reconstruction",
  "A row of a quantized matrix is the concatenation, over the sub-quantizers, of the centroids selected by its codes, multiplied by the transposed projection if there is one and scaled by the row's norm if there are norms. Indexing with an integer, indexing with a list, slicing, iterating, converting to an array and looking up into an output array all give this same row for the same index.",
  ["all quantizers, codes, projections and norms", "all indices, lists and slices"],
  "for all quantized arrays q and row indices r: every access path yields reconstruct(codes[r]) * norm[r]",
  "each access path has its own code; norms and projections are absent from most fixtures",
  [S+"storage/quantized.py"],
  "PQ.reconstruct, QuantizedArray.embedding/__getitem__/__iter__/__array__/shape/__len__")
p("C19", "Command-line tools do what the library operation of the same name does",
  "Converting with the command-line tool loads the input in its source format and writes those same embeddings in the target format; each format name selects its own reader and writer. Selecting writes exactly the requested representable words with their embeddings, refusing (or, when asked, skipping) words that cannot be represented; analogy queries exclude exactly the query words that were not explicitly included.",
  ["all formats", "all word lists", "all include sets"],
  "for all inputs: tool output = library composition",
  "format pairs, include subsets and unknown words multiply; integration tests run one or two pairs",
  [S+"scripts/util.py", S+"scripts/select.py", S+"scripts/convert.py", S+"scripts/analogy.py", S+"scripts/similar.py", S+"scripts/bucket_to_explicit.py"],
  "Format.load, Format.write, get_skips, main functions")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
