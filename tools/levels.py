"""Level and note per property for MANIFEST.json."""
BASE = ("Every obligation generated from the current source is discharged by z3/cvc5 for all inputs (no bound on sizes, words or values). "
        "Trusted: pyvc's semantics of the Python/Cython subset, the assumed contracts on CPython, numpy and the standard library listed in the evidence; float arithmetic treated as real arithmetic. ")
NOTE = {
    "C01": "Words free of lone surrogates, sizes below 2^62; metadata modelled as opaque toml text that toml parses back.",
    "C02": "Layout stated token by token against an independently written format description; header with at least one chunk.",
    "C03": "Cut points range symbolically over every byte offset before the last content byte; trailing padding excluded.",
    "C04": "np.memmap assumed to give the file's bytes at the offset; empty shapes excluded; assertion checks enabled.",
    "C05": "Dictionary and set model assumed; hash values through the indexers' contracts.",
    "C06": "Cython integer widths modelled as machine arithmetic; UTF-8 model axiomatised.",
    "C07": "The C hash loops are verified by CBMC loop contracts (dfcc) or by pyvc; little-endian host.",
    "C08": "Counting lemma on finite sets trusted.",
    "C09": "Row equality over all words and n-grams; quantized storage through the reconstruction contract.",
    "C10": "Sum/normalisation over the reals.",
    "C11": "argpartition, argsort and heap functions through assumed contracts; n >= 1, k >= 0.",
    "C12": "As C11; query vector over the reals.",
    "C13": "Non-zero rows; reals; words without spaces and outer newlines.",
    "C14": "Text of a number assumed to parse back to that number; n >= 1, at least one column.",
    "C15": "Dense storage; reals; non-zero word vectors; writer contract fixes the file up to the end of the input matrix.",
    "C16": "Frame: contents of every pre-existing object reachable from the embeddings.",
    "C17": "All argument shapes and element types symbolic.",
    "C18": "Codes below the number of centroids; einsum/matmul through assumed contracts over the reals.",
    "C19": "argparse through an assumed contract; option presets cover every format and flag, not their full cross product.",
}
LEVELS = {k: ("proof", BASE + v) for k, v in NOTE.items()}
