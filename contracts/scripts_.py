"""C19: the command-line tools."""
from contract import contract
from terms import *
from values import *
import prove
import files
import textio
import invariant
import arrays
from arrays import AX, AData, Arr
from similar import use_lookup
from files import PathV, Utf8
from lookup import sym_emb, unchanged, EMC
from embeds import EM

SU = "finalfusion.scripts.util"
FMT = ["finalfusion", "fasttext", "word2vec", "textdims", "text"]
LOADERS = {"finalfusion": EM + ".load_finalfusion", "fasttext": "finalfusion.compat.fasttext.load_fasttext", "word2vec": "finalfusion.compat.word2vec.load_word2vec",
           "textdims": "finalfusion.compat.text.load_text_dims", "text": "finalfusion.compat.text.load_text"}
WRITERS = {"finalfusion": EM + ".Embeddings.write", "fasttext": "finalfusion.compat.fasttext.write_fasttext", "word2vec": "finalfusion.compat.word2vec.write_word2vec",
           "textdims": "finalfusion.compat.text.write_text_dims", "text": "finalfusion.compat.text.write_text"}


class Log:
    """readers and writers seen through their contracts: what is loaded from where, what is written where"""

    def __init__(self, cx, emb):
        self.cx, self.loads, self.writes = cx, [], []
        for f, q in LOADERS.items():
            cx.e.summaries[q] = lambda e, v, f=f: self.load(e, f, v, emb)
        for f, q in WRITERS.items():
            cx.e.summaries[q] = lambda e, v, f=f: self.write(e, f, v)

    def load(self, e, f, v, emb):
        if e.loop_gen:
            return NotImplemented
        self.loads.append((f, v["file"], v.get("mmap") if f == "finalfusion" else v.get("lossy")))
        return emb

    def write(self, e, f, v):
        if e.loop_gen:
            return NotImplemented
        self.writes.append((f, v["file"], v["self"] if f == "finalfusion" else v.get("embeddings", v.get("embeds"))))

    def loaded(self, f, path, lossy, mmap):
        ok = len(self.loads) == 1 and self.loads[0][0] == f and self.loads[0][1] is path
        self.cx.record("the input is read once, by the reader of its format", None if ok else prove.Why("refuted", "loads %r, not %s" % ([x[0] for x in self.loads], f)))
        if ok:
            self.cx.ensure("with the given %s option" % ("mmap" if f == "finalfusion" else "lossy"), tf(self.cx.e, self.loads[0][2]) == tf(self.cx.e, mmap if f == "finalfusion" else lossy))

    def written(self, f, path, emb):
        ok = len(self.writes) == 1 and self.writes[0][0] == f and self.writes[0][1] is path
        self.cx.record("the output is written once, by the writer of its format", None if ok else prove.Why("refuted", "writes %r, not %s" % ([x[0] for x in self.writes], f)))
        if ok and emb is not None:
            self.cx.record("the loaded embeddings are written", None if self.writes[0][2] is emb else prove.Why("refuted", "other embeddings are written"))
        return self.writes[0][2] if ok else None


def tf(e, v):
    t = e.truth_t(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def emb1(cx):
    """some embeddings"""
    return sym_emb(cx, kinds=("SimpleVocab",), skinds=("NdArray",), norms=False, lookups=False)


def flags(cx, *pairs):
    """(flag to use, symbolic value) for on/off options"""
    return [(cx.choose(*p) if isinstance(p, tuple) else p, cx.bool("o")) for p in pairs]


for _f in FMT:
    @contract("C19", "Format." + _f, [SU + ":Format.load", SU + ":Format.write"])
    def fmt(cx, f=_f):
        """the format name selects its own reader and writer"""
        e = cx.e
        p = emb1(cx)
        lg = Log(cx, p["e"])
        pi, po = PathV(e), PathV(e)
        lo, mm = cx.bool("lossy"), cx.bool("mmap")
        F = cx.call(SU + ":Format", f)
        r = cx.method(F, "load", pi, lo, mm)
        cx.record("gives what the reader gives", None if r is p["e"] else prove.Why("refuted", "gives %r" % (r,)))
        lg.loaded(f, pi, lo, mm)
        cx.method(F, "write", po, p["e"])
        lg.written(f, po, p["e"])
        cx.record("nothing else is read", None if len(lg.loads) == 1 else prove.Why("refuted", "reads on"))


@contract("C19", "ffp-convert", ["finalfusion.scripts.convert:main", SU + ":Format.load", SU + ":Format.write", SU + ":add_format_args", SU + ":add_input_output_args", SU + ":add_common_args"], max_paths=800)
def convert(cx):
    """loads the input in its source format and writes those embeddings in the target format"""
    e = cx.e
    p = emb1(cx)
    lg = Log(cx, p["e"])
    pi, po = PathV(e), PathV(e)
    ff, tt = cx.choose(None, *FMT), cx.choose(None, *FMT)
    long = cx.choose(True, False)
    lo, mm = cx.bool("lossy"), cx.bool("mmap")
    o = [("--lossy" if long else "-l", lo), ("--mmap", mm)]
    if ff is not None:
        o.append(("--from" if long else "-f", ff))
    if tt is not None:
        o.append(("--to" if long else "-t", tt))
    e.argv = (o, [pi, po])
    cx.call("finalfusion.scripts.convert:main")
    lg.loaded(ff or "word2vec", pi, lo, mm)
    lg.written(tt or "finalfusion", po, p["e"])
    unchanged(cx, p)


@contract("C19", "ffp-bucket-to-explicit", ["finalfusion.scripts.bucket_to_explicit:main", SU + ":Format.load"])
def b2e(cx):
    """writes the explicit conversion of the loaded embeddings in finalfusion format"""
    e = cx.e
    p = emb1(cx)
    p2 = emb1(cx)
    lg = Log(cx, p["e"])
    got = []

    def conv(eng, v):
        got.append(v["self"])
        return p2["e"]
    e.summaries[EM + ".Embeddings.bucket_to_explicit"] = conv
    pi, po = PathV(e), PathV(e)
    ff = cx.choose(None, "finalfusion", "fasttext")
    long = cx.choose(True, False)
    lo, mm = cx.bool("lossy"), cx.bool("mmap")
    e.argv = ([("--lossy" if long else "-l", lo), ("--mmap", mm)] + ([("--from" if long else "-f", ff)] if ff else []), [pi, po])
    cx.call("finalfusion.scripts.bucket_to_explicit:main")
    lg.loaded(ff or "finalfusion", pi, lo, mm)
    cx.record("the loaded embeddings are converted once", None if len(got) == 1 and got[0] is p["e"] else prove.Why("refuted", "converts %d times" % len(got)))
    lg.written("finalfusion", po, p2["e"])


class WSim:
    """a result of a similarity query"""

    def __init__(self, w, s):
        self.w, self.s = w, s

    @property
    def cls(self):
        return None

    def terms(self, eng):
        return (self.w, self.s)

    def subst(self, eng, sub):
        return WSim(eng.subst_val(self.w, sub), eng.subst_val(self.s, sub))

    def attr(self, eng, name):
        if name == "word":
            return self.w
        if name == "similarity":
            return self.s
        raise Unsupported("WordSimilarity.%s" % name)


def queries(cx, parts):
    """a file with one query per line: `parts` strings separated by a space, free of line breaks and outer whitespace
    (several: free of whitespace and not empty)"""
    e = cx.e
    m = cx.int("m", 0, 2 ** 40)
    fs = [cx.func("q%d" % i, I, Str) for i in range(parts)]
    i, k = z3.Const("q_i", I), z3.Const("q_k", I)
    for f in fs:
        cs = files.WS if parts > 1 else "\n\r"
        cx.requires(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < m, k >= 0, k < slen(f(i))), z3.And(*[code(f(i), k) != ord(c) for c in cs])), patterns=[code(f(i), k)]))
        if parts > 1:
            cx.requires(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), slen(f(i)) > 0), patterns=[f(i)]))
        else:
            cx.requires(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m, slen(f(i)) > 0), z3.And(*[z3.And(code(f(i), 0) != ord(c), code(f(i), slen(f(i)) - 1) != ord(c)) for c in files.WS])), patterns=[f(i)]))
    j = e.T.fresh("k")
    line = []
    for n, f in enumerate(fs):
        line += ([E(b" ")] if n else []) + [E(Utf8(f(j)))]
    p = PathV(e, (For(j, m, line + [E(b"\n")]),))
    p.locale = True
    return p, m, fs


def query_tool(cx, name, parts, opts, method, check, guard, n=None):
    """runs main(), checks the calls of the library operation and what is printed"""
    e = cx.e
    p = emb1(cx)
    lg = Log(cx, p["e"])
    path, m, fs = queries(cx, parts)
    has, cnt, rw, rs = cx.func("has", Str, B), cx.func("cnt", Str, I), cx.func("rw", Str, I, Str), cx.func("rs", Str, I, R)
    s = z3.Const("q_s", Str)
    cx.requires(z3.ForAll([s], cnt(s) >= 0, patterns=[cnt(s)]))
    calls = Lst(e, ())

    def op(eng, v):
        key = v[guard[0]]
        if v["self"] is not p["e"] or not all(e.is_str(v[g]) for g in guard):
            return NotImplemented
        cx.record("the number of results asked for", e.prove_val(v["k"], kk, "k"))
        check(v)
        calls.c = calls.c + (E(tuple(e.str_t(v[g]) for g in guard)),)
        t = e.str_t(key)
        return cx.list(cnt(t), lambda j: WSim(rw(t, j), rs(t, j))) if e.branch(has(t)) else None
    e.summaries[EM + ".Embeddings." + method] = op
    pe = PathV(e)
    ksym = cx.int("k", 0)
    pre = ((None, True, 10, True), (None, False, ksym, False), *[(f, n % 2 == 0, ksym if n % 2 else 10, n % 2) for n, f in enumerate(FMT)])
    ff, long, kk, stdin = cx.choose(*pre) if n is None else pre[n]
    lo, mm = cx.bool("lossy"), cx.bool("mmap")
    o = [("--lossy" if long else "-l", lo), ("--mmap", mm)] + opts
    if ff is not None:
        o.append(("--format" if long else "-f", ff))
    if not isinstance(kk, int):
        o.append(("-k", kk))
    if not stdin:
        e.argv = (o, [pe, path])
    else:
        e.argv, e.stdin = (o, [pe]), path
    e.stdout = textio.TextW(e)
    cx.call("finalfusion.scripts.%s:main" % name)
    lg.loaded(ff or "finalfusion", pe, lo, mm)
    i, j = e.T.fresh("i"), e.T.fresh("j")
    q = [f(i) for f in fs]
    keyq = q[0]
    res = [E(files.JoinT(files.JoinStr("\n", [For(j, cnt(keyq), [E(FStr([rw(keyq, j), " ", rs(keyq, j)]))])]))), E(b"\n")]
    nonempty = z3.BoolVal(True) if parts > 1 else slen(keyq) != 0
    wantc = [E(tuple(q))] if parts > 1 else [IfI(nonempty, [E(tuple(q))])]
    cx.record("one query per line, in order", e.prove_items(calls.c, (For(i, m, wantc),), "calls"))
    cx.record("prints the results", files.prove_bytes(e, e.stdout.c, (For(i, m, [IfI(z3.And(nonempty, has(keyq)), res)]),), "stdout"))
    cx.record("nothing is written", None if not lg.writes else prove.Why("refuted", "writes a file"))


@contract("C19", "ffp-similar", ["finalfusion.scripts.similar:main"], max_paths=800)
def similar(cx):
    """prints the results of word_similarity for each word of the input"""
    query_tool(cx, "similar", 1, [], "word_similarity", lambda v: None, ["query"])


@contract(["C19", "C12"], "ffp-analogy", ["finalfusion.scripts.analogy:main", "finalfusion.scripts.analogy:get_skips"], max_paths=2500)
def analogy(cx):
    """prints the results of analogy for each line, skipping exactly the query words not included"""
    e = cx.e
    n = cx.choose(*range(7))
    inc = ((), ("a",), ("b",), ("c",), ("a", "b"), ("c", "a"), ("a", "b", "c"))[n]
    opts = [("-i" if len(inc) % 2 else "--include", inc)] if inc else []

    def check(v):
        q = {x: e.str_t(v["word" + str(n + 1)]) for n, x in enumerate("abc")}
        s = e.T.fresh("s", Str)
        want = z3.Or(*[s == q[x] for x in "abc" if x not in inc]) if len(inc) < 3 else z3.BoolVal(False)
        if v["skip"] is None:
            return cx.record("exactly the query words not included are skipped", prove.Why("refuted", "no skip set is given") if inc else None)
        cx.ensure("exactly the query words not included are skipped", tf(e, e.dict_has(v["skip"], s)) == want)
    query_tool(cx, "analogy", 3, opts, "analogy", check, ["word1", "word2", "word3"], n)


class SelectInv:
    """invariant of the loop of ffp-select over the requested words, in whatever order.
    Roles: W: list of selected words, M: the matrix.  Ghosts: src(r): position of the r-th selected word among the
    requested ones, idx(i): row of the i-th requested word"""

    def __init__(self, cx, has, vec, cols, ignore):
        self.cx, self.has, self.vec, self.cols, self.ignore = cx, has, vec, cols, ignore
        self.k = None

    def bind(self, eng, mods):
        r = {"W": None, "M": None}
        for m, cs in mods.items():
            role = "W" if isinstance(m, Lst) else "M" if isinstance(m, arrays.Buf) and len(m.c.shape) == 2 else None
            if isinstance(m, textio.TextW):
                continue
            if role is None or r[role] is not None:
                return None
            r[role] = m
        o = eng.__dict__.get("_orders", {})
        if r["W"] is None or r["M"] is None or len(o) != 1:
            return None
        self.ord = list(o.values())[0][0]
        return r

    def entry(self, eng, r):
        if r["W"].c:
            return None
        return {"c": iv(0), "wf": lambda x: eng.T.lit(""), "mf": r["M"].c.at, "src": lambda x: iv(0), "idx": lambda x: iv(0)}

    def havoc(self, eng, r):
        cx = self.cx
        c, wf, mf = cx.int("sel", 0, 2 ** 62), cx.func("selw", I, Str), cx.func("selm", I, I, R)
        k = eng.T.fresh("k")
        r["W"].c = (For(k, c, [E(wf(k))]),)
        old = r["M"].c
        r["M"].c = AData(old.shape, old.dt, mf(AX[0], AX[1]))
        return {"c": c, "wf": wf, "mf": mf, "src": cx.func("src", I, I), "idx": cx.func("idx", I, I)}

    def step(self, eng, r, g):
        its, k = r["W"].c, self.k
        if not its or not isinstance(its[0], For) or not all(isinstance(x, E) for x in its[1:]) or len(its) > 2:
            raise Unsupported("the list of selected words")
        c = g["c"] + (len(its) - 1)
        wf = (lambda x: z3.If(x == g["c"], eng.str_t(its[1].v), g["wf"](x))) if len(its) > 1 else g["wf"]
        return {"c": c, "wf": wf, "mf": r["M"].c.at, "src": (lambda x: z3.If(x == g["c"], k, g["src"](x))) if len(its) > 1 else g["src"],
                "idx": (lambda x: z3.If(x == k, g["c"], g["idx"](x)))}

    def inv(self, eng, r, g, pos):
        k, n = pos[-1]
        if self.k is None or not z3.is_app_of(k, z3.Z3_OP_ADD):
            self.k = k
        o, c, wf, mf, src, idx, has = self.ord, g["c"], g["wf"], g["mf"], g["src"], g["idx"], self.has
        x, j = z3.Const("q_x", I), z3.Const("q_j", I)

        def A(vs, f, t):
            # new contents are instantiated rather than matched
            return z3.ForAll(vs, f, patterns=[t]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(mentions(t, [y]) for y in vs) else z3.ForAll(vs, f)
        return [("at most one row per word", z3.And(c >= 0, c <= k)),
                ("selected words are requested and representable", A([x], z3.Implies(z3.And(x >= 0, x < c), z3.And(src(x) >= 0, src(x) < k, wf(x) == o(src(x)), has(wf(x)), idx(src(x)) == x)), wf(x))),
                ("row r is the embedding of the r-th selected word", A([x, j], z3.Implies(z3.And(x >= 0, x < c, j >= 0, j < self.cols), mf(x, j) == z3.substitute(self.vec(wf(x)), (AX[0], j))), mf(x, j))),
                ("representable words are selected", A([x], z3.Implies(z3.And(x >= 0, x < k, has(o(x))), z3.And(idx(x) >= 0, idx(x) < c, src(idx(x)) == x)), o(x))),
                ("no word is left out unless allowed", A([x], z3.Implies(z3.And(x >= 0, x < k, z3.Not(self.ignore)), has(o(x))), o(x)))]

    def after(self, eng, r, g):
        pass


for _p in ((0, 1), (2, 3), (4, 5)):
    @contract("C19", "ffp-select.%s" % "+".join(((None,) + tuple(FMT))[i] or "default" for i in _p), ["finalfusion.scripts.select:main"], max_paths=800)
    def select(cx, pres=_p):
        """writes exactly the requested representable words, each once, with their embeddings"""
        e = cx.e
        p = emb1(cx)
        n = cx.choose(*pres)
        md = cx.call("finalfusion.metadata:Metadata") if n % 2 else None
        if md is not None:
            e.setattr(p["e"], "metadata", md)
        lg = Log(cx, p["e"])
        path, m, fs = queries(cx, 1)
        f = fs[0]
        has, vec = use_lookup(cx, p)
        ign, verb = cx.bool("ignore_unk"), cx.bool("verbose")
        ff, long, stdin, lo = ((None,) + tuple(FMT))[n], n % 2 == 0, n < 3, n in (1, 2, 4)
        mm = cx.bool("mmap")
        o = [("--lossy" if long else "-l", lo), ("--mmap", mm), ("--ignore_unk" if long else "-i", ign), ("--verbose" if long else "-v", verb)]
        if ff is not None:
            o.append(("--format" if long else "-f", ff))
        pi, po = PathV(e), PathV(e)
        e.argv = (o, [pi, po] + ([] if stdin else [path]))
        if stdin:
            e.stdin = path
        e.stdout = textio.TextW(e)
        spec = SelectInv(cx, has, vec, p["cols"], ign)
        e.loop_rules.append(invariant.LoopInvariant(cx, "select", spec))
        k, r = cx.outcome(cx.fn("finalfusion.scripts.select:main"))
        e.loop_rules.clear()
        lg.loaded(ff or "finalfusion", pi, lo, mm)
        unchanged(cx, p)
        cx.record("nothing is printed", files.prove_bytes(e, e.stdout.c, (), "stdout"))
        i = cx.int("i", 0)
        cx.requires(i < m)
        if k == "raise":
            cx.record("nothing is written then", None if not lg.writes else prove.Why("refuted", "writes %d files" % len(lg.writes)))
            if r.cls.name != "SystemExit":
                return cx.fail("ends normally or by refusing", "raises %r" % (r,))
            x = z3.Const("q_x", I)
            return cx.ensure("refuses only words without embedding, when not asked to skip them", z3.And(z3.Not(ign), z3.Exists([x], z3.And(x >= 0, x < m, z3.Not(has(f(x)))))))
        w = lg.written("finalfusion", po, None)
        if w is None:
            return
        v, st = e.getattr(w, "vocab"), e.getattr(w, "storage")
        ok = isinstance(v, Obj) and v.cls.name == "SimpleVocab" and isinstance(st, Arr) and st.cls_.name == "NdArray"
        cx.record("a plain vocabulary and a dense matrix", None if ok else prove.Why("refuted", "writes %r and %r" % (v, st)))
        cx.record("without norms", None if e.getattr(w, "norms") is None else prove.Why("refuted", "writes norms"))
        ws, d = e.getattr(v, "words"), st.values()
        nn = e.int_t(cx.spec("len(l)", l=ws))
        cx.ensure("one row per word", z3.And(d.shape[0] == nn, d.shape[1] == p["cols"]))
        cx.ensure("words without embedding are skipped only when asked to", z3.Or(ign, has(f(i))))
        a, b, j = cx.int("a", 0), cx.int("b", 0), cx.int("j", 0)
        which = cx.choose(0, 1, 2)
        if which == 0:
            cx.requires(has(f(i)))
            cx.ensure("every requested word with an embedding is written", e.truth_t(cx.spec("w in v", w=f(i), v=v)))
            return
        cx.requires(z3.And(a < nn, j < p["cols"]))
        wa = e.str_t(e.getitem(ws, a))
        if which == 1:
            cx.requires(z3.And(b < nn, a != b))
            cx.ensure("each word once", wa != e.str_t(e.getitem(ws, b)))
            x = z3.Const("q_x", I)
            cx.ensure("only requested words", z3.Exists([x], z3.And(x >= 0, x < m, f(x) == wa)))
        else:
            cx.ensure("only words with an embedding", has(wa))
            cx.record("each row is the embedding of its word", arrays.prove_term(e, d.at(a, j), z3.substitute(vec(wa), (AX[0], j)), "row"))
