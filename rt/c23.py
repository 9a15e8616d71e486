# -*- coding: utf-8 -*-
from pgcgen import *
from StringIO import StringIO
from daeso.pgc.diff import pgc_diff
from daeso.gb.graphbank import GraphBank


def graph(gid, tokens, nodes, edges):
    """nodes: [(name, label, begin, end)]"""
    g = DaesoGraph(id=gid)
    g.tokens = list(tokens)
    for n, l, b, e in nodes:
        g.add_node(n, label=l, begin=b, end=e, tokens=list(tokens[int(b):int(e)]))
    for a, b in edges:
        g.add_edge(a, b)
    return g


def corpus(rels, pairs):
    """pairs: [(source graph, target graph, alignments, comment)]"""
    c = ParallelGraphCorpus(relations=list(rels))
    for k, (s, t, al, meta) in enumerate(pairs):
        b = Pair(GraphBank("/none/a%d.xml" % k, "graphml"), GraphBank("/none/b%d.xml" % k, "graphml"))
        gp = GraphPair(b, Pair(graph(*s), graph(*t)), meta_data=elem(u"" if meta is None else meta, "graph_meta_data"))
        for x, y, r in al:
            gp.add_align(Pair(x, y), r)
        c.append(gp)
    return c


def lines(text):
    """lines of a report as words, without rulers and empty lines"""
    if isinstance(text, str):
        text = text.decode("utf-8")
    out = [l.split() for l in text.split(u"\n")]
    return [l for l in out if l and not (len(l) == 1 and len(l[0]) >= 80 and len(set(l[0])) == 1)]


def report(pairs1, pairs2, rels, names, annots, words_only, comments, ident, given):
    rels = given or rels
    out = [u"%s corpus: %s" % (annots[0], names[0]), u"%s corpus: %s" % (annots[1], names[1])]
    n = 0
    for k, ((s, t, al1, m1), (_, _, al2, m2)) in enumerate(zip(pairs1, pairs2)):
        out += [u"Graph pair %d" % (k + 1), u" ".join(s[1]), u" ".join(t[1])]
        if comments:
            for m, a in ((m1, annots[0]), (m2, annots[1])):
                text = None if m is None else elem(m, "x").findtext("comment")
                if text and text.strip():
                    out += [u"Comments by %s" % a, text]
        inner = [set(e[0] for e in g[3]) for g in (s, t)]
        keep = lambda x, y: not words_only or x not in inner[0] and y not in inner[1]
        one = dict(((x, y), r) for x, y, r in al1 if keep(x, y))
        two = dict(((x, y), r) for x, y, r in al2 if keep(x, y))
        first = [p for p in one if one[p] in rels]
        parts = [(u"Identical", [p for p in first if two.get(p) == one[p]] if ident else []),
                 (u"Relation different", [p for p in first if p in two and two[p] != one[p]]),
                 (u"%s only" % annots[0], [p for p in first if p not in two]),
                 (u"%s only" % annots[1], [p for p in two if two[p] in rels and p not in one])]
        look = [dict((x[0], x) for x in g[2]) for g in (s, t)]
        for title, ps in parts:
            if ps:
                out.append(title)
            for p in sorted(ps, key=lambda p: int(p[0])):
                n += 1
                sides = []
                for j in (0, 1):
                    name, label, b, e = look[j][p[j]]
                    sides.append(u'(%s) %s [%s:%s]: "%s"' % (name, label, b, e, u" ".join((s, t)[j][1][int(b):int(e)])))
                rr = u" / ".join([unicode(d[p]).upper() if p in d else u"NONE" for d in (one, two)])
                out += [u"#%d:" % n, sides[0], u"<<< %s >>>" % rr, sides[1]]
    return lines(u"\n".join(out))


def check(pairs1, pairs2, rels, names, annots, words_only, comments, ident, given):
    a, b = corpus(rels, pairs1), corpus(rels, pairs2)
    before = [shown(x) for x in list(a) + list(b)]
    want = report(pairs1, pairs2, rels, names, annots, words_only, comments, ident, given)
    out = StringIO()
    pgc_diff(a, b, names[0], names[1], annots[0], annots[1], words_only, comments, ident, given, out)
    got = lines(out.getvalue())
    for k, (x, y) in enumerate(zip(got, want)):
        eq(uni(x), uni(y), "line %d of the report (words only %s, identical %s, relations %s)" % (k, words_only, ident, given))
    eq(len(got), len(want), "lines of the report")
    eq([shown(x) for x in list(a) + list(b)], before, "corpora after the report")


def rand_tree(r, gid):
    words = r.sample(WORDS, r.randint(1, 5))
    n = len(words)
    names = [str(x) for x in r.sample(range(0, 120), 2 * n)]
    nodes = [(names[i], words[i], str(i), str(i + 1)) for i in range(n)]
    edges = []
    for j in range(r.randint(0, n - 1)):
        b = r.randrange(n)
        e = r.randint(b + 1, n)
        nodes.append((names[n + j], r.choice([u"NP", u"S", u"\xe9P"]), str(b), str(e)))
        edges += [(names[n + j], names[i]) for i in range(b, e)]
    r.shuffle(nodes)
    return gid, words, nodes, edges


def rand_match(r, s, t, rels):
    a, b = [n[0] for n in s[2]], [n[0] for n in t[2]]
    r.shuffle(a)
    r.shuffle(b)
    return sorted((x, y, r.choice(rels)) for x, y in zip(a, b) if r.random() < .7)


def vary(r, al, s, t, rels):
    """another annotator's alignment"""
    p = r.random()
    if p < .15:
        return rand_match(r, s, t, rels)
    out = []
    for x, y, k in al:
        q = r.random()
        if q < .5:
            out.append((x, y, k))
        elif q < .7:
            out.append((x, y, r.choice(rels)))
    return out


S = ("1", ["a", u"\xe9", "c"], [("9", "a", "0", "1"), ("10", u"\xe9", "1", "2"), ("2", "c", "2", "3"), ("0", "S", "0", "3")], [("0", "9"), ("0", "10"), ("0", "2")])
T = ("2", ["d", "e"], [("0", "d", "0", "1"), ("1", "e", "1", "2"), ("2", u"\xe9", "0", "2"), ("3", "X", "0", "0")], [("2", "0"), ("2", "1")])
RR = ["equals", "restates", u"sp\xe9c"]


def gen(R):
    r = R.rng
    pieces = [None, "equals", u"sp\xe9c"]
    for x, y, z, w in itertools.product(pieces, repeat=4):
        al1 = [(a, b, k) for a, b, k in (("9", "0", x), ("10", "2", y)) if k]
        al2 = [(a, b, k) for a, b, k in (("9", "0", z), ("0", "1", w)) if k]
        for wo in (False, True):
            yield ([(S, T, al1, u"<comment/>")], [(S, T, al2, u"<comment>it</comment>")], RR, ("one", "two"), ("A", "B"), wo, wo, not wo, None)
    while True:
        n = r.randint(0, 3)
        one, two = [], []
        for k in range(n):
            s, t = rand_tree(r, "s%d" % k), rand_tree(r, "t%d" % k)
            al = rand_match(r, s, t, RR)
            m = [r.choice([None, u"", u"<comment/>", u"<comment> </comment>", u"<comment>h\xe9 l</comment><x/>", u"<y>n</y>"]) for _ in "ab"]
            one.append((s, t, al, m[0]))
            two.append((s, t, vary(r, al, s, t, RR), m[1]))
        yield (one, two, RR, ("c1", "c 2"), ("An", "Bo"), r.random() < .4, r.random() < .5, r.random() < .5,
               r.choice([None, None, ["equals"], ["restates", "equals"]]))


GROUPS = [Group("reports", gen, check, "reports on every combination of 3 labels for 4 alignments of one graph pair; random pairs of corpora")]
