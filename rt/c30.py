# -*- coding: utf-8 -*-
import inspect
from scr import *
from daeso.relations import RELATIONS
from daeso.pair import Pair


class Stand(object):
    """stands in for functions and methods while a script runs, and records how they are called"""
    def __init__(self, **results):
        self.results, self.calls = results, []

    def __enter__(self):
        self.old = []
        for name, res in self.results.items():
            mod, _, f = name.rpartition("/")
            owner = __import__(mod.split(":")[0], fromlist=["x"])
            if ":" in mod:
                owner = getattr(owner, mod.split(":")[1])
            real = owner.__dict__[f]
            self.old.append((owner, f, real))
            setattr(owner, f, self.make(f, real, res))
        return self

    def make(self, f, real, res):
        def stand(*a, **k):
            args = inspect.getcallargs(real, *a, **k)
            me = args.pop("self", None)
            self.calls.append((f, me, args))
            return res(me, args) if callable(res) else res
        return stand

    def __exit__(self, *a):
        for o, f, r in self.old:
            setattr(o, f, r)


class Table(object):
    def __init__(self, log, name):
        self.log, self.name = log, name

    def write(self, outf=None, legenda=False):
        self.log.append((self.name, bool(legenda)))


def spell(r, opts):
    """arguments for options: [(short, long, values or None)] in any order"""
    opts = list(opts)
    r.shuffle(opts)
    out = []
    for short, long, vals in opts:
        out.append(r.choice([x for x in (short, long) if x]))
        out += vals or []
    return out


def flags(r, all, on):
    return [(s, l, None) for s, l, d in all if d in on]


def check_stats(which, on, threshold, format, names, seed):
    r = random.Random(seed)
    mod = {"pgc_stats": "daeso.pgc.pgcstats", "gb_stats": "daeso.gb.gbstats"}[which]
    with Scratch() as s:
        for n in names:
            s.put(n, "")
        log = []
        pair = which == "pgc_stats"
        res = (Table(log, "corpora"), Table(log, "banks")) if pair else Table(log, "banks")
        opts = flags(r, FLAGS if pair else FLAGS[:5], on)
        if threshold is not None:
            opts.append(("-t", "--token_diff_threshold", [str(threshold)]))
        if format is not None and not pair:
            opts.append(("-F", "--format", [format]))
        args = spell(r, opts)
        args.insert(0, s.path("*.x")) if r.random() < .5 else args.append(s.path("*.x"))
        with Stand(**{mod + "/" + which: lambda me, a: res}) as st:
            code, out, err = run(which, args)
        found = sorted(s.path(n) for n in names if n.endswith(".x"))
        if not found:
            holds(code, "no matching files are reported", code)
            eq((st.calls, log), ([], []), "statistics without files")
            return
        eq((code, len(st.calls)), (0, 1), "exit status and computations")
        a = st.calls[0][2]
        eq(sorted(a.pop("files")), found, "files")
        want = dict((d, d in on or "all" in on) for _, _, d in FLAGS if d.startswith("with") and (pair or d in ("with_empty_nodes", "with_failed_parses", "with_punc")))
        want["threshold"] = threshold or 0
        if not pair:
            want["format"] = "alpino" if format is None else format
        for k in want:
            got = a.get(k)
            eq(bool(got) if k.startswith("with") else got, want[k], "argument " + k)
        eq(log, [(n, "legenda" in on) for n in (["corpora", "banks"] if pair else ["banks"])], "tables written")


FLAGS = [("-a", "--with-all", "all"), ("-e", "--with-empty-nodes", "with_empty_nodes"), ("-f", "--with-failed-parses", "with_failed_parses"),
         ("-l", "--legenda", "legenda"), ("-p", "--with-punc-nodes", "with_punc"), ("-r", "--with-unaligned-roots", "with_unaligned_roots"),
         ("-u", "--with_unaligned-graphs", "with_unaligned_graphs")]


def gen_stats(R):
    r = R.rng
    for which in ("pgc_stats", "gb_stats"):
        ds = [d for _, _, d in (FLAGS if which == "pgc_stats" else FLAGS[:5])]
        for n in range(3):
            for on in itertools.combinations(ds, n):
                yield which, on, None, None, ["a.x", "b.x"], n
        yield which, (), 3, "graphml", [], 0
        yield which, (), 0, "alpino", ["b.x", "y"], 1
    while True:
        which = r.choice(["pgc_stats", "gb_stats"])
        ds = [d for _, _, d in (FLAGS if which == "pgc_stats" else FLAGS[:5])]
        yield which, [d for d in ds if r.random() < .4], r.choice([None, 0, 1, 7]), r.choice([None, "graphml", "alpino", "x"]), r.sample(
            ["a.x", "b.x", "c", "d e.x"], r.randint(0, 4)), r.randrange(10 ** 6)


# ------------------------------------------------------------------ text corpora
def check_text(kind, a, b, tag, enc, seed):
    r = random.Random(seed)
    opts = [] if tag is None else [("-t" if kind == "diff" else None, "--tag", [tag])]
    if kind == "diff":
        opts += [] if enc is None else [("-e", "--encoding", [enc])]
        with Stand(**{"daeso.ptc.diff/print_diff": None}) as st:
            code, _, _ = run("ptc_diff", spell(r, opts) + [a[0], b[0]])
        got = [(c[2]["true_corpus"], c[2]["pred_corpus"], c[2]["tag"], c[2]["encoding"]) for c in st.calls]
        eq((code, got), (0, [(a[0], b[0], tag or "s", enc or "utf-8")]), "corpora compared")
        return
    opts += [("-t", "--true_corpora", a), ("-p", "--pred_corpora", b)]
    with Stand(**{"daeso.ptc.evaluate/eval_alignment": None}) as st:
        if len(a) != len(b):
            raises(AssertionError, "different numbers of corpora", run, "ptc_eval", spell(r, opts))
            eq(st.calls, [], "evaluation of different numbers of corpora")
            return
        code, _, _ = run("ptc_eval", spell(r, opts))
    got = [([tuple(p) for p in c[2]["filename_pairs"]], c[2]["tag"]) for c in st.calls]
    eq((code, got), (0, [(zip(a, b), tag or "s")]), "corpora evaluated")


def gen_text(R):
    r = R.rng
    f = lambda n: [r.choice(["a", "b.ptc", "x/c d", "e"]) for _ in range(n)]
    while True:
        n = r.randint(1, 4)
        yield r.choice(["diff", "eval"]), f(n), f(n if r.random() < .8 else r.randint(1, 4)), r.choice([None, "s", "p", "w"]), r.choice(
            [None, "utf-8", "latin-1"]), r.randrange(10 ** 6)


# ----------------------------------------------------------------- graph corpora
def put_small(s, name, n, aligned=()):
    s.put("bank.xml", bank_xml([{"id": "g%d" % k, "tokens": u"w%d \xe9" % k, "root": "n0", "nodes": [("n0", "a", u"w%d \xe9" % k), ("n1", "b", u"\xe9")],
                                 "edges": [("n0", "n1", None)]} for k in range(3)]))
    s.put("bank2.xml", slurp(s.path("bank.xml")))
    return s.put(name, corpus_xml([("0", "bank.xml"), ("1", "bank2.xml")], [{"from": ("0", "g%d" % (k % 3)), "to": ("1", "g%d" % ((k + 1) % 3)), "align": al, "meta": None}
                                                                           for k, al in zip(range(n), aligned or [()] * n)]))


def check_gdiff(names, on, rels, sizes, seed):
    """names: of the annotators, or None"""
    r = random.Random(seed)
    with Scratch() as s:
        fns = [put_small(s, n, k) for n, k in zip(("one.pgc", "two.pgc"), sizes)]
        opts = flags(r, [("-c", "--with_comments", "show_comments"), ("-e", "--evaluate", "evaluate"), ("-i", "--with_ident", "show_ident")], on)
        for o, v in zip((("-1", "--first_annotator"), ("-2", "--second_annotator")), names):
            opts += [] if v is None else [o + ([v],)]
        opts += [] if rels is None else [("-r", "--relations", rels)]
        args = spell(r, opts)
        args = fns + args
        with Stand(**{"daeso.pgc.diff/pgc_diff": None, "daeso.pgc.evaluate:AlignEval/add": None, "daeso.pgc.evaluate:AlignEval/run_eval": None,
                      "daeso.pgc.evaluate:AlignEval/write": None}) as st:
            code, _, _ = run("pgc_diff", args)
        eq((code, [c[0] for c in st.calls]), (0, ["pgc_diff"] + ["add", "run_eval", "write"] * ("evaluate" in on)), "work done")
        a = st.calls[0][2]
        ueq([(len(a[c]), [shown(gp) for gp in a[c]]) for c in ("corpus1", "corpus2")],
            [(n, [shown(gp) for gp in ParallelGraphCorpus(inf=f)]) for n, f in zip(sizes, fns)], "corpora compared")
        eq((a["corpus_name1"], a["corpus_name2"], a["annot1"], a["annot2"], bool(a["show_comments"]), bool(a["show_ident"]), a["relations"]),
           (fns[0], fns[1], names[0] or "First annotator", names[1] or "Second annotator", "show_comments" in on, "show_ident" in on, rels), "how they are compared")
        if "evaluate" in on:
            holds(len(set(id(c[1]) for c in st.calls[1:])) == 1, "one evaluation", st.calls)
            e = st.calls[1][2]
            x = [v for v in e.values() if isinstance(v, ParallelGraphCorpus)]
            got = inspect.getargspec(REAL_ADD)[0][1:3]
            ueq([[shown(gp) for gp in e[k]] for k in got], [[shown(gp) for gp in ParallelGraphCorpus(inf=f)] for f in fns], "corpora evaluated")


from daeso.pgc.evaluate import AlignEval
REAL_ADD = AlignEval.add


def gen_gdiff(R):
    r = R.rng
    while True:
        yield ([r.choice([None, "A", "B C"]), r.choice([None, "D"])], [x for x in ("show_comments", "evaluate", "show_ident") if r.random() < .5],
               r.choice([None, [], ["equals"], ["equals", "restates"]]), [r.randint(0, 3), r.randint(0, 3)], r.randrange(10 ** 6))


def check_agreement(fns, annot, pickle, words, seed):
    r = random.Random(seed)
    opts = [("-a", "--annotator", [a]) for a in annot or []] if not annot or len(annot) < 2 else []
    if pickle is not None:
        opts.append(("-p", "--pickle", [pickle]))
    if words:
        opts.append(("-w", "--words-only", None))
    args = spell(r, opts)
    if annot and len(annot) > 1:            # in this order
        for a in annot:
            args += [r.choice(["-a", "--annotator"]), a]
    args = args + fns if not args or r.random() < .5 else fns + args
    with Stand(**{"daeso.pgc.agreement/run_eval": None}) as st:
        code, _, _ = run("pgc_agreement", args)
    got = [(c[2]["corpus_fns"], c[2]["annotators"], c[2]["pickle_fn"], bool(c[2]["words_only"])) for c in st.calls]
    eq((code, got), (0, [(fns, annot, pickle, words)]), "agreement")


def gen_agreement(R):
    r = R.rng
    while True:
        yield [r.choice(["a", "b.pgc", "c d"]) for _ in range(r.randint(1, 4))], r.choice([None, ["X"], ["X", "Y"], ["Z", "X", "Y"]]), r.choice(
            [None, "p.pickle"]), r.random() < .5, r.randrange(10 ** 6)


class Made(object):
    def __init__(self, log, number):
        self.log, self.number = log, number

    def write(self, outf=None, encoding="utf-8", pprint=False, abs_path=False):
        self.log.append((self.number, outf))


def check_from(texts, sources, targets, formats, tags, rels, longest, least, seed):
    r = random.Random(seed)
    opts = []
    for o, v in zip((("-p", "--parallel-text-corpora"), ("-s", "--source-graphbanks"), ("-t", "--target-graphbanks")), (texts, sources, targets)):
        opts += [o + (v,)] if v else []
    for o, v in zip(("--source-format", "--target-format", "--source-tag", "--target-tag", "--max-token-len", "--min-token-diff"), formats + tags + [longest, least]):
        opts += [] if v is None else [(None, o, [str(v)])]
    opts += [] if rels is None else [(None, "--relations", rels)]
    log, calls = [], []

    def make(me, a):
        calls.append(a)
        return Made(log, len(calls) - 1)
    with Stand(**{"daeso.pgc.creation/pgc_from_ptc": make}):
        code, _, _ = run("pgc_from_ptc", spell(r, opts))
    if len(texts) != len(sources) or len(texts) != len(targets):
        holds(code, "different numbers of files are reported", code)
        eq((calls, log), ([], []), "corpora made of different numbers of files")
        return
    eq(code, 0, "exit status")
    eq(log, [(k, os.path.splitext(os.path.basename(t))[0] + ".pgc") for k, t in enumerate(texts)], "corpora written")
    eq(len(calls), len(texts), "corpora made")
    for k, a in enumerate(calls):
        eq((a["text_corpus_file"], a["source_graphbank_file"], a["target_graphbank_file"]), (texts[k], sources[k], targets[k]), "files of corpus %d" % k)
        eq((a["focus_tags"].source, a["focus_tags"].target), tuple(t or "s" for t in tags), "focus tags")
        eq((a["graph_formats"].source, a["graph_formats"].target), tuple(f or "alpino" for f in formats), "formats")
        eq(list(a["relations"]), list(RELATIONS if rels is None else rels), "relations")
        eq((a["max_token_len"], a["min_token_diff"]), (99999 if longest is None else longest, least or 0), "limits")


def gen_from(R):
    r = R.rng
    f = lambda n, e: [r.choice(["a", "b.x", "x/c d", "e.f.g"]) + e for _ in range(n)]
    while True:
        n = r.randint(0, 3)
        m = lambda: n if r.random() < .85 else r.randint(0, 3)
        yield (f(n, ".ptc"), f(m(), ".xml"), f(m(), ""), [r.choice([None, "graphml", "alpino"]) for _ in "st"], [r.choice([None, "s", "p", "w"]) for _ in "st"],
               r.choice([None, ["b", "a"], ["x"]]), r.choice([None, 5, 0]), r.choice([None, 2, 0]), r.randrange(10 ** 6))


# ----------------------------------------------------------------- phrases
def check_phrases(aligned, delim, loud, seed):
    """aligned: per corpus, per graph pair the alignments"""
    r = random.Random(seed)
    with Scratch() as s:
        fns = [put_small(s, "c%d.pgc" % k, len(al), al) for k, al in enumerate(aligned)]
        out = fine("pgc_extract_phrases", *(([] if delim is None else ["-d", delim]) + ["-V"] * loud + fns)).decode("utf-8")
        word = lambda k, n: u"w%d \xe9" % k if n == "n0" else u"\xe9"
        d = "\t" if delim is None else delim
        got = out.split("\n")
        eq(got.pop(), u"", "end of the last line")
        want = []
        for al in aligned:
            for k, links in enumerate(al):
                i, j = k % 3, (k + 1) % 3
                want.append([d.join([s.path("bank.xml"), s.path("bank2.xml"), "g%d" % i, "g%d" % j, a, b] * loud + [word(i, a), rel, word(j, b)]) for a, b, rel in links])
        eq(len(got), sum(map(len, want)), "lines")
        at = 0
        for w in want:
            ueq(sorted(got[at:at + len(w)]), sorted(w), "phrases of a graph pair")
            at += len(w)


def gen_phrases(R):
    r = R.rng
    for al in ([], [("n0", "n1", "equals")], [("n0", "n0", "restates"), ("n1", "n1", "equals")]):
        for d in (None, ", "):
            for loud in (False, True):
                yield [[al, al]], d, loud, 0
    while True:
        # a node is aligned once at most
        one = lambda: [(a, b, r.choice(RELS)) for a, b in zip(("n0", "n1"), r.choice([("n0", "n1"), ("n1", "n0")])) if r.random() < .6]
        yield [[one() for _ in range(r.randint(0, 4))] for _ in range(r.randint(1, 3))], r.choice([None, "|", " :: "]), r.random() < .5, 0


GROUPS = [
    Group("statistics", gen_stats, check_stats, "all sets of up to 2 flags of both tools; random arguments", 1),
    Group("text corpora", gen_text, check_text, "random arguments for up to 4 pairs of corpora", 1),
    Group("differences", gen_gdiff, check_gdiff, "random arguments for corpora of up to 3 graph pairs", 1),
    Group("agreement", gen_agreement, check_agreement, "random arguments for up to 4 corpora", 1),
    Group("corpora from texts", gen_from, check_from, "random arguments for up to 3 corpora", 1),
    Group("phrases", gen_phrases, check_phrases, "12 corpora; random ones of up to 4 graph pairs", 1),
]
