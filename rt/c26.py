# -*- coding: utf-8 -*-
import sys
from c24 import *
from daeso.ptc import diff, evaluate


class Out(object):
    """takes bytes; unicode only as a terminal of unknown encoding does"""
    def __init__(self):
        self.parts = []
        self.encoding = None
        self.softspace = 0

    def write(self, x):
        self.parts.append(x.encode("ascii") if isinstance(x, unicode) else x)

    def flush(self):
        pass

    def getvalue(self):
        return "".join(self.parts)


def spoken(f, *a, **k):
    """what a function prints"""
    out, sys.stdout = sys.stdout, Out()
    try:
        f(*a, **k)
        return sys.stdout.getvalue()
    finally:
        sys.stdout = out


class Fake(object):
    """links only"""
    def __init__(self, links):
        self.links = links

    def get_alignments(self):
        return [et.Element("link", **l) for l in self.links]


def ratio(a, b):
    return float(a) / b if b else 0.0


def scores(t, p, c):
    pr, rc = ratio(c, p), ratio(c, t)
    return ratio(p, t), pr, rc, 2 * pr * rc / (pr + rc) if pr + rc else 0.0


def check_scores(t, p, c):
    got = evaluate.compute_scores(t, p, c)
    eq(len(got), 4, "scores")
    for g, w, n in zip(got, scores(t, p, c), ("ratio", "precision", "recall", "f-score")):
        close(g, w, n)


def gen_scores(R):
    for t in range(6):
        for p in range(6):
            for c in range(min(t, p) + 1):
                yield t, p, c
    while True:
        t, p = R.rng.randint(0, 10 ** R.rng.randint(1, 6)), R.rng.randint(0, 1000)
        yield t, p, R.rng.randint(0, min(t, p))


def check_count(a, b, tag):
    pairs = lambda l: set((x["from_id"], x["to_id"]) for x in l if x["from_tag"] == tag and x["to_tag"] == tag)
    x, y = pairs(a), pairs(b)
    eq(evaluate.get_alignment(Fake(a), tag), x, "alignments with a tag")
    eq(evaluate.count_alignment(Fake(a), Fake(b), tag), (len(x), len(y), len(x & y)), "counts")


def some_links(r, ids, tags, most=5):
    return [{"from_tag": r.choice(tags), "from_id": r.choice(ids), "to_tag": r.choice(tags), "to_id": r.choice(ids)} for _ in range(r.randint(0, most))]


def gen_count(R):
    r = R.rng
    l = lambda a, i, b, j: {"from_tag": a, "from_id": i, "to_tag": b, "to_id": j}
    al = [l("s", "1", "s", "2"), l("s", "1", "p", "2"), l("p", "1", "s", "2"), l("s", "2", "s", "1"), l("s", "1", "s", "2")]
    for n in range(1 << 5):
        for m in range(1 << 3):
            yield [x for k, x in enumerate(al) if n >> k & 1], [x for k, x in enumerate(al) if m >> k & 1], ("s", "p")[n & 1]
    while True:
        yield some_links(r, ["1", "2", u"\xe9"], ["s", "p"]), some_links(r, ["1", "2", u"\xe9"], ["s", "p"]), r.choice(["s", "p", "q"])


# ------------------------------------------------------------- reports
def corpus(sc, name, s, t, align, method="id"):
    fns = put_text(sc, name + "s.xml", s), put_text(sc, name + "t.xml", t)
    doc = HitaextDoc()
    for side, fn in zip(("from", "to"), fns):
        doc.set_filename(side, fn)
    doc.set_alignment_method(method)
    ps, pt = position(s), position(t)
    for i, j in align:
        if method == "id":
            doc.add_id_alignment(ps[i][0], ps[i][2], pt[j][0], pt[j][2])
        else:
            doc.add_n_alignment(ps[i][0], ps[i][1], pt[j][0], pt[j][1])
    fn = sc.path(name + ".xml")
    doc.write(fn)
    return doc, fn


def check_diff(s, t, a, b, tag, how, method, encoding):
    ps, pt = position(s), position(t)
    if tag not in [x[0] for x in ps]:
        return
    with Scratch() as sc:
        x, y = corpus(sc, "a", s, t, a, method), corpus(sc, "b", s, t, b, method)
        k = {"encoding": encoding} if encoding != "utf-8" else {}
        got = spoken(diff.print_diff, x[how[0]], y[how[1]], tag, **k)
    texts = [[whole[w[0]:w[1]] for w in l] for l, whole in (layout(x, (), (), ()) for x in (s, t))]
    blocks = []
    for i, p in enumerate(ps):
        if p[0] != tag:
            continue
        for mine, other, what in ((a, b, u"true only"), (b, a, u"predicted only")):
            for j in [n for m, n in mine if m == i]:
                if pt[j][2] not in [pt[n][2] for m, n in other if m == i]:
                    blocks.append((what, p[2], pt[j][2], texts[0][i], texts[1][j]))
    # what is said, not how it is laid out
    got = got if isinstance(got, unicode) else got.decode(encoding)
    at = 0
    for n, (what, i, j, x, y) in enumerate(blocks):
        at = got.find(u"#%d %s (%s, %s)" % (n + 1, what, i, j), at)
        holds(at >= 0, "difference %d: %s %s %s" % (n + 1, what, i, j), got, blocks)
        end = got.find(u"#%d " % (n + 2), at)
        part = got[at:end if end > 0 else len(got)].split(u"\n", 1)[1]
        holds(x in part and y in part[part.index(x) + len(x):], "texts of difference %d" % (n + 1), part, (x, y))
    holds(u"#%d " % (len(blocks) + 1) not in got, "more differences than there are", got, blocks)
    if not blocks:
        eq(got.strip(), u"", "report without differences")


def gen_diff(R):
    r = R.rng
    s = ("doc", u"d", u"", u"", [("s", u"1", u"a b", u"", []), ("s", u"2", u"c", u"", []), ("p", u"3", u"d", u"", [("s", u"4", u"e", u"", [])])])
    t = ("doc", u"e", u"", u"", [("s", u"1", u"A", u"", []), ("s", u"2", u"B", u"", []), ("s", u"3", u"C", u"", [])])
    als = [[], [(1, 1)], [(1, 2), (1, 1)], [(1, 1), (2, 2), (4, 3)], [(2, 1), (3, 3), (0, 0)]]
    n = 0
    for a, b in itertools.product(als, repeat=2):
        for tag in ("s", "p"):
            n += 1
            yield s, t, a, b, tag, (n & 1, n >> 1 & 1), "id", "utf-8"
    while True:
        s, t = number(rand_text(r)), number(rand_text(r))
        # characters that say nothing here
        ns, nt = len(list(nodes(s))), len(list(nodes(t)))
        base = [(r.randrange(ns), r.randrange(nt)) for _ in range(r.randint(0, 5))]
        vary = lambda: list(set([x for x in base if r.random() < .7] + [(r.randrange(ns), r.randrange(nt)) for _ in range(r.randint(0, 2))]))
        if any(u"#" in unicode(n[1]) for n in nodes(s)):
            continue
        yield s, t, vary(), vary(), r.choice(["s", "p", "doc"]), (r.randint(0, 1), r.randint(0, 1)), r.choice(["id", "n"]), "utf-8"


def check_eval(cases, tag, labels):
    with Scratch() as sc:
        fns, want = [], []
        tot = [0, 0, 0]
        for k, (s, t, a, b) in enumerate(cases):
            ps, pt = position(s), position(t)
            fns.append((corpus(sc, "a%d" % k, s, t, a)[1], corpus(sc, "b%d" % k, s, t, b)[1]))
            x, y = (set((ps[i][2], pt[j][2]) for i, j in l if ps[i][0] == pt[j][0] == tag) for l in (a, b))
            n = len(x), len(y), len(x & y)
            tot = [p + q for p, q in zip(tot, n)]
            want.append((n, labels[k] if labels else "b%d.xml" % k))
        args = [fns, tag] + ([labels] if labels else [])
        got = spoken(evaluate.eval_alignment, *args)
    rows = [l.split() for l in got.split("\n")]
    rows = [l for l in rows if len(l) >= 7 and l[0].isdigit()]
    eq(len(rows), len(cases) + 1, "rows")
    for row, (n, label) in zip(rows, want + [(tuple(tot), None)]):
        eq(row[:7], ["%d" % x for x in n] + ["%.2f" % x for x in scores(*n)], "row of the evaluation")
        if label is not None:
            eq(row[7:], label.split(), "label of a row")


def gen_eval(R):
    r = R.rng
    flat = lambda n, tag: ("doc", u"d", u"", u"", [(tag if k else "p", u"i%d" % k, u"x", u"", []) for k in range(n)])
    while True:
        cases = []
        for _ in range(r.randint(0, 3)):
            s, t = flat(r.randint(1, 4), "s"), flat(r.randint(1, 4), r.choice(["s", "s", "p"]))
            ns, nt = len(list(nodes(s))), len(list(nodes(t)))
            al = lambda: [(r.randrange(ns), r.randrange(nt)) for _ in range(r.randint(0, 5))]
            cases.append((s, t, al(), al()))
        yield cases, r.choice(["s", "s", "p", "x"]), r.choice([None, ["label %d" % k for k in range(len(cases))]])


GROUPS = [Group("scores", gen_scores, check_scores, "all counts up to 5, then random", .4),
          Group("counts", gen_count, check_count, "up to 5 links, repeated ones too", .6),
          Group("differences", gen_diff, check_diff, "small documents in files, given by name or as document", 3),
          Group("evaluation", gen_eval, check_eval, "up to 3 pairs of corpora in files", 2)]
