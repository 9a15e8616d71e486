# -*- coding: utf-8 -*-
from gp import *


def check(ops):
    run(GraphMapping, [tuple(o) for o in ops])


def gen(R):
    for c in gen_ops(R, ["a", "b"], ["r1"], R.pick(3, 4)):
        yield c
    while True:
        yield rand_ops(R)


def meta(md):
    if md is None:
        return None
    e = et.Element("graph_meta_data")
    e.text = md[0]
    e.attrib.update(md[1])
    for tag, txt in md[2]:
        c = et.SubElement(e, tag)
        c.text = txt
    return e


def norm(md):
    """meta data up to surrounding whitespace"""
    if md is None:
        md = [None, {}, []]
    return [(md[0] or "").strip(), md[1], [(a, (b or "").strip()) for a, b in md[2]]]


def check_eq(kind, p1, p2):
    cls = {"mapping": GraphMapping, "matching": GraphMatching}[kind]

    def mk(banks, ids, als, md, stub):
        gp = new(cls, banks, ids, stub, meta_data=meta(md))
        d = {}
        for s, t, r in als:
            gp.add_align(Pair(s, t), r)
            if cls is GraphMatching:
                for p in list(d):
                    if p[0] == s or p[1] == t:
                        del d[p]
            d[s, t] = r
        return gp, d
    a, da = mk(*p1)
    b, db = mk(*p2)
    want = tuple(p1[0]) == tuple(p2[0]) and tuple(p1[1]) == tuple(p2[1]) and da == db and norm(p1[3]) == norm(p2[3])
    for x, y in ((a, b), (b, a)):
        holds(bool(x == y) == want, "equal iff same banks, graphs, alignments and meta data", x == y, want)
        holds(bool(x != y) != want, "!= is the negation of ==", x != y, not want)
    holds(a == a and not (a != a), "equal to itself")
    holds(not (a == 1) and a != 1, "not equal to something else")
    c = copy.deepcopy(a)
    holds(c == a and a == c, "a deep copy is equal")
    holds(c.get_banks() is a.get_banks() and c.get_graphs() is a.get_graphs(), "copy shares banks and graphs")
    holds(c.get_meta_data() is not a.get_meta_data(), "copy has its own meta data")
    agree(a, da, "after building")
    str(a)


MDS = [None, [None, {}, []], ["text", {}, []], [" text ", {}, []], [None, {"x": "1"}, []], [None, {}, [("sub", "1")]],
       [None, {}, [("sub", None)]], [None, {}, [("sub", "2"), ("x", u"caf\xe9")]], [u"caf\xe9", {}, []],
       ["None", {}, []]]


def gen_eq(R):
    base = [("b1", "b2"), ("g1", "g2"), [], None, False]
    for kind in ("mapping", "matching"):
        for m1 in MDS:
            for m2 in MDS:
                yield kind, base[:3] + [m1, False], base[:3] + [m2, True]
        for f in itertools.product([0, 1], repeat=4):
            yield kind, base, [("b1" if f[0] else "c1", "b2" if f[1] else "c2"),
                               ("g1" if f[2] else "h1", "g2" if f[3] else "h2"), [], None, False]
    while True:
        ns = ["a", "b", "c", 1]
        als = [(R.rng.choice(ns), R.rng.choice(ns), R.rng.choice(RELS[:2])) for _ in range(R.rng.randint(0, 5))]
        al2 = list(als)
        x = R.rng.random()
        if x < 0.3:
            R.rng.shuffle(al2)
        elif x < 0.7 and al2:
            k = R.rng.randrange(len(al2))
            s, t, r = al2[k]
            al2[k] = R.rng.choice([(s, t, RELS[2]), (s, "zz", r), ("zz", t, r), (t, s, r)])
        elif x < 0.85:
            al2 = al2[1:]
        m = R.rng.choice(MDS)
        yield (R.rng.choice(["mapping", "matching"]), base[:2] + [als, m, False],
               base[:2] + [al2, m if R.rng.random() < 0.9 else R.rng.choice(MDS), False])


def check_roots(kind, r1, r2, als):
    gp = new({"mapping": GraphMapping, "matching": GraphMatching}[kind])
    gp.get_source_graph().root, gp.get_target_graph().root = r1, r2
    d = set()
    for s, t in als:
        gp.add_align(Pair(s, t), "r")
    d = set((p.source, p.target) for p, r in gp.alignments())
    holds(bool(gp.roots_aligned()) == ((r1, r2) in d), "roots_aligned iff the two roots are aligned",
          gp.roots_aligned(), (r1, r2) in d)


def gen_roots(R):
    ns = ["a", "b", None]
    prs = list(itertools.product(["a", "b"], repeat=2))
    for kind in ("mapping", "matching"):
        for r1 in ns:
            for r2 in ns:
                for k in range(4):
                    for als in itertools.combinations(prs, k):
                        yield kind, r1, r2, list(als)


GROUPS = [Group("mapping-histories", gen, check, "all histories of up to 3 operations on 2 shared node names, "
                "then random histories of up to 14 operations on 7 names"),
          Group("equality", gen_eq, check_eq, "all pairs of 10 meta-data shapes, bank and graph differences; then "
                "random alignment sets"),
          Group("roots", gen_roots, check_roots, "all root choices and alignment sets over 2 names", 0.3)]
