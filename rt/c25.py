# -*- coding: utf-8 -*-
import sys
import types
for _n in ("daeso_nl", "daeso_nl.string", "daeso_nl.string.stopword"):
    sys.modules.setdefault(_n, types.ModuleType(_n))
# the package for Dutch is not part of the repository
sys.modules["daeso_nl.string.stopword"].remove_stopwords = lambda tokens, ignore_case=False, remove_punc=False: list(tokens)
from c24 import *
from math import sqrt
from daeso.pair import Pair
from daeso.ptc import textalign as ta
from daeso.string import similar


# ------------------------------------------------------------- filters and similarities
class Elem(object):
    def __init__(self, n, **kw):
        self.kw = dict(kw, _n=n)

    def get(self, k, d=None):
        return self.kw.get(k, d)


def crosses(p, q):
    return p[0] < q[0] and p[1] > q[1] or p[0] > q[0] and p[1] < q[1]


def check_greedy(given, out, threshold, what):
    """given, out: [(score, (n, m))]"""
    rest = list(given)
    for x in out:
        holds(x in rest, what + ": a score that was not given", x)
        rest.remove(x)
        holds(x[0] >= threshold, what + ": a score below the threshold", x)
    eq([x[0] for x in out], sorted([x[0] for x in out], reverse=True), what + ": order of the scores")
    for x, y in itertools.combinations(out, 2):
        holds(not crosses(x[1], y[1]), what + ": alignments that cross", (x, y))
    for x in rest:
        holds(x[0] < threshold or any(y[0] >= x[0] and crosses(x[1], y[1]) for y in out),
              what + ": an alignment is left out though it crosses no better one", x)


def check_filters(scores, thresholds):
    ss, ts = {}, {}
    mk = lambda: [(v, Pair(ss.setdefault(n, Elem(n)), ts.setdefault(m, Elem(m)))) for v, n, m in scores]
    l = mk()
    out = ta.no_filter(l)
    holds(len(out) == len(l) and all(a is b for a, b in zip(out, l)), "no filter", out)
    nm = lambda x: (x[0], (x[1].source.get("_n"), x[1].target.get("_n")))
    for t in thresholds:
        f, g = ta.threshold_filter_factory(t), ta.no_cross_filter_factory(t)
        for _ in range(2):
            l = mk()
            out = f(l)
            eq(map(nm, out), [(v, (n, m)) for v, n, m in scores if v > t], "threshold filter")
            holds(all(any(a[1] is b[1] for b in l) for a in out), "threshold filter: pairs given", t)
            l = mk()
            given = list(l)
            out = g(l)
            holds(all(any(a[1].source is b[1].source and a[1].target is b[1].target for b in given) for a in out), "filter: pairs given", t)
            check_greedy(map(nm, given), map(nm, out), t, "filter of crossing alignments")


def gen_filters(R):
    r = R.rng
    for vs in itertools.product([0.0, .5, 1.0], repeat=4):
        yield [(v, n, m) for v, (n, m) in zip(vs, [(1, 1), (1, 2), (2, 1), (2, 2)])], [0.0, .5, 1.0, 2]
    while True:
        a, b = r.randint(0, 5), r.randint(1, 5)
        sc = [(r.choice([0.0, .25, .5, 1 / 3., 1.0, -1.0, r.random()]), n, m) for n in range(1, a + 1) for m in range(1, b + 1)]
        yield sc, [r.choice([0.0, .25, .5, 1, r.random()])]


def check_sims(a, b, wa, wb):
    for f, g in ((ta.jaccard_sim, similar.jaccard), (ta.dice_sim, similar.dice), (ta.cosine_sim, similar.cosine), (ta.tanimoto_sim, similar.tanimoto),
                 (ta.type_match_sim, similar.type_match), (ta.overlap_min_sim, similar.overlap_min), (ta.overlap_max_sim, similar.overlap_max)):
        try:
            want = g(a, b)
        except Exception, e:
            raises(e.__class__, f.__name__, f, a, b)
            continue
        close(f(a, b, wa, wb), want, f.__name__)
        close(f(a, b), want, f.__name__)
    eq(ta.equals_sim(a, b, wa, wb), 1.0 if a == b else 0.0, "equals_sim")
    p, q = sum([x * x for x in wa]), sum([x * x for x in wb])
    if 0 < p < 1e-100 or 0 < q < 1e-100:
        return
    close(ta.weighted_cosine_sim(a, b, wa, wb), sum([x * y for x, y in zip(wa, wb)]) / sqrt(p * q) if p and q else 0.0, "weighted cosine")
    eq(ta.no_weight([a, b, a]), [None] * 3, "no weight")
    eq(ta.no_weight([]), [], "no weight")


def gen_sims(R):
    r = R.rng
    for a, b in itertools.product([["x"], ["x", "y"], ["y", "x", "x"], ["z"]], repeat=2):
        for wa, wb in (([1.0, 0.0], [1.0, 1.0]), ([0.0, 0.0], [1.0, 2.0]), ([2, 3], [4, -1]), ([], [])):
            yield a, b, wa, wb
    while True:
        n = r.randint(0, 5)
        ws = lambda: [r.choice([0.0, 1.0, r.random(), -r.random()]) for _ in range(n)]
        t = lambda: [r.choice(["x", "y", "z", u"\xe9"]) for _ in range(r.randint(1, 4))]
        yield t(), t(), ws(), ws()


def check_terms(text, n):
    ws = text.split()
    grams = lambda ts: [u" ".join(ts[i:i + n]) for i in range(len(ts) - n + 1)]
    ueq(ta.word_n_gram_factory(n)(text), grams(ws), "word n-grams")
    ueq(ta.char_n_gram_factory(n)(text), grams(list(text)), "character n-grams")
    ueq(ta.preproc_word_n_gram_factory(n)(text), grams([w.lower() for w in ws if w not in u"!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"]),
        "preprocessed word n-grams")


def gen_terms(R):
    r = R.rng
    for t in ("", "a", "a b .", ". .", "The cat , The", "A -- b ! c", u"\xc9\xe9n . twee"):
        for n in (1, 2, 3):
            yield t, n
    while True:
        yield u" ".join([r.choice(["The", "a", ".", ",", "--", "cat's", u"\xc9", "B", "?"]) for _ in range(r.randint(0, 7))]), r.randint(1, 4)


# ------------------------------------------------------------- whole runs
SIMS = {"equals": ta.equals_sim, "jaccard": ta.jaccard_sim, "wcos": ta.weighted_cosine_sim, "dice": ta.dice_sim}


def sim_of(kind, a, b, wa, wb):
    if kind == "equals":
        return 1.0 if a == b else 0.0
    if kind == "wcos":
        p, q = sum([x * x for x in wa]), sum([x * x for x in wb])
        return sum([x * y for x, y in zip(wa, wb)]) / sqrt(p * q) if p and q else 0.0
    return SIMS[kind](a, b)


def below(t, at=0):
    """positions, in order of the document, of everything below the node at a position"""
    ns = list(nodes(t))
    return range(at + 1, at + len(list(nodes(ns[at]))))


def ignored(t, tags):
    out, i = set(), 0

    def go(x, ign, at):
        ign = ign or x[0] in tags
        if ign:
            out.add(at)
        at += 1
        for k in x[4]:
            at = go(k, ign, at)
        return at
    go(t, False, 0)
    return out


def check_run(s, t, method, align, focus, scope, ignore, kind, weighted, filt, clear, given):
    with Scratch() as sc:
        texts = s, t
        fns = put_text(sc, "s.xml", s), put_text(sc, "t.xml", t)
        doc = HitaextDoc()
        for side, fn in zip(("from", "to"), fns):
            doc.set_filename(side, fn)
        if method:
            doc.set_alignment_method(method)
        ps, pt = position(s), position(t)
        add = doc.add_id_alignment if method == "id" else doc.add_n_alignment
        name = (lambda x: x[2]) if method == "id" else (lambda x: x[1])
        for i, j in align:
            add(ps[i][0], name(ps[i]), pt[j][0], name(pt[j]))
        kept = [(i, j) for i, j in align if not clear or ps[i][0] != focus[0] and pt[j][0] != focus[1]]
        trees = None
        if given:
            trees = Pair(ta.get_doc_tree(doc, "from", ignore[0]), ta.get_doc_tree(doc, "to", ignore[1]))
            start = dict((i, []) for i in range(len(ps)))
            if given == 2:                                  # alignments of the texts given count
                doc.inject_alignments(trees.source, trees.target)
                for i, j in align:
                    start[i].append(j)
        else:
            start = dict((i, [j for a, j in kept if a == i]) for i in range(len(ps)))
        term = lambda text: text.split()
        calls = []

        def weight(terms):
            calls.append(terms)
            return [[float(w.count("a")), float(len(w))] for w in terms]
        f = {"none": None, "half": ta.threshold_filter_factory(.4), "cross": ta.no_cross_filter_factory(.3)}[filt]
        kw = {"term_func": term, "sim_func": SIMS[kind]}
        if weighted or kind == "wcos":
            kw["weight_func"] = weight
        if f:
            kw["filter_func"] = f
        al = ta.TextAligner(Pair(*focus), Pair(*scope) if scope else None, Pair(*ignore) if ignore != ((), ()) else None, **kw)
        al.align_corpus(doc, doc_trees=trees, clear=clear)
        got = []
        where = [dict(((x[0], unicode(name(x))), k) for k, x in enumerate(p)) for p in (ps, pt)]
        for l in links(doc):
            k = "id" if method == "id" else "n"
            got.append((where[0][l["from_tag"], l["from_" + k]], where[1][l["to_tag"], l["to_" + k]]))
        # what should be there
        ign = ignored(s, ignore[0]), ignored(t, ignore[1])
        idx = [layout(x, g, (), ()) for x, g in zip(texts, ignore)]
        words = [[(u"" if w is None else whole[w[0]:w[1]]).split() for w in l] for l, whole in idx]
        if scope is None:
            scopes = (s[0],), (t[0],)
            start[0] = [0]
        else:
            scopes = scope
        want = dict((k, list(v)) for k, v in start.items())
        free = {}                                           # pairs that may be there: filters with ties
        for i in range(len(ps)):
            if ps[i][0] not in scopes[0]:
                continue
            for j in list(want[i]):
                if pt[j][0] not in scopes[1]:
                    continue
                a = [k for k in below(s, i) if ps[k][0] == focus[0] and k not in ign[0]]
                b = [k for k in below(t, j) if pt[k][0] == focus[1] and k not in ign[1]]
                w = lambda ts: [float(ts.count("a")), float(len(ts))]
                sc_ = [(sim_of(kind, words[0][x], words[1][y], w(words[0][x]), w(words[1][y])), (x, y)) for x in a for y in b]
                if filt == "half":
                    sc_ = [x for x in sc_ if x[0] > .4]
                if filt == "cross":
                    made = [(v, p) for v, p in sc_ if p in got and p[1] not in start[p[0]]]
                    if not any(p[1] in start[p[0]] for v, p in sc_) and len([1 for x in scopes[0] if x in [n[0] for n in ps]]) == 1 and not free:
                        check_greedy([(v, (ps[p[0]][1], pt[p[1]][1])) for v, p in sc_],
                                     [(v, (ps[p[0]][1], pt[p[1]][1])) for v, p in sorted(made, reverse=True)], .3, "alignments within a scope")
                    sc_ = made
                for v, (x, y) in sc_:
                    if y not in want[x]:
                        want[x].append(y)
        rows = [(i, j) for i in range(len(ps)) for j in want[i]]
        if filt == "none" or filt == "half":
            eq(got, rows, "links after the alignment")
        else:
            eq(sorted(got), sorted(rows), "links after the alignment")
        eq(doc.get_alignment_method(), method, "method")


WORDS_ = [u"a", u"a", u"b", u"c", u"a b", u"b a", u"a c \xe9", u""]


def rand_par(r):
    """a text of parts and sentences"""
    c = [0]

    def leaf(tag):
        c[0] += 1
        return tag, u"i%d" % c[0], r.choice(WORDS_), u"", []

    def part(d):
        c[0] += 1
        me = u"i%d" % c[0]
        kids = []
        for _ in range(r.randint(0, 3)):
            x = r.random()
            kids.append(leaf("s") if x < .7 else leaf("q") if x < .8 else part(d - 1) if d else leaf("s"))
        return r.choice(["p", "p", "p", "note"]), me, u"", u"", kids
    me = u"i0"
    return "doc", me, u"", u"", [part(1) if r.random() < .8 else leaf("s") for _ in range(r.randint(1, 3))]


def gen_run(R):
    r = R.rng
    s = ("doc", u"d", u"", u"", [("p", u"1", u"", u"", [("s", u"2", u"a b", u"", []), ("s", u"3", u"c", u"", [])]),
                                 ("note", u"4", u"", u"", [("s", u"5", u"a b", u"", [])]), ("p", u"6", u"", u"", [("s", u"7", u"c", u"", [])])])
    t = ("doc", u"d", u"", u"", [("p", u"1", u"", u"", [("s", u"2", u"c", u"", []), ("s", u"3", u"a b", u"", [])]),
                                 ("p", u"4", u"", u"", [("s", u"5", u"c", u"", []), ("q", u"6", u"a b", u"", [])])])
    for al, focus, scope, ign in itertools.product(
            [[], [(1, 1), (6, 4)], [(1, 4), (6, 1), (2, 3), (1, 1)], [(0, 0), (3, 3), (1, 4), (7, 5)]],
            [("s", "s"), ("s", "q"), ("p", "p")], [None, (("p",), ("p",)), (("doc", "note"), ("doc", "p"))], [((), ()), (("note",), ()), ((), ("q",))]):
        yield s, t, r.choice([None, "n", "id"]), al, focus, scope, ign, r.choice(["equals", "wcos"]), r.random() < .5, \
            r.choice(["half", "cross"]), r.random() < .5, r.choice([0, 0, 1, 2])
    while True:
        s, t = rand_par(r), rand_par(r)
        ns, nt = len(list(nodes(s))), len(list(nodes(t)))
        al = sorted(set([(r.randrange(ns), r.randrange(nt)) for _ in range(r.randint(0, 6))]), key=lambda x: r.random())
        yield (s, t, r.choice([None, "n", "id"]), al, r.choice([("s", "s")] * 4 + [("s", "q"), ("p", "p"), ("x", "s")]),
               r.choice([None, (("p",), ("p",)), (("p", "note"), ("p", "doc")), (("note",), ("p",)), (("doc",), ("doc",))]),
               r.choice([((), ())] * 3 + [(("note",), ()), (("q",), ("note", "q"))]), r.choice(["equals", "equals", "wcos"]), r.random() < .5,
               r.choice(["none", "half", "cross"]), r.random() < .6, r.choice([0, 0, 0, 1, 2]))


GROUPS = [Group("filters", gen_filters, check_filters, "grids of 2 by 2, then random up to 5 by 5, with ties", 1),
          Group("similarities", gen_sims, check_sims, "small lists of terms and weights", .5),
          Group("terms", gen_terms, check_terms, "texts of up to 7 words", .5),
          Group("runs", gen_run, check_run, "whole runs on small documents in files: both methods, scopes, ignored tags, filters, texts given or not", 3)]
