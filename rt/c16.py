# -*- coding: utf-8 -*-
from pgcgen import *
from daeso.gb.graphbank import GraphBank, SparseGraphBank
import xml.etree.cElementTree as ET

# ways of writing paths, and the file they stand for; "-" files do not exist; {0} is a scratch directory
PATHS = [("{0}/a/x.xml", "x"), ("{0}/a/../a/x.xml", "x"), ("{0}/./a//x.xml", "x"), ("{0}/link/x.xml", "x"),
         ("{0}/hard.xml", "x"), ("{0}/a/soft.xml", "x"), ("{0}/b/x.xml", "y"), ("{0}/link/../b/x.xml", "y"),
         ("{0}/a/X.xml", "z"), ("{0}/a/gone.xml", "-a"), ("{0}/link/gone.xml", "-a"), ("{0}/b/gone.xml", "-b"),
         ("{0}/c d/e&.xml", "e"), ("{0}/a/sub/../x.xml", "x"), (".", "-cwd"), ("./nowhere.xml", "-cwd2"), ("nowhere.xml", "-cwd2")]


def build(s):
    for fn in ("a/x.xml", "b/x.xml", "a/X.xml", "c d/e&.xml", "a/sub/y.xml", "out/deep/z"):
        s.put(fn, "<graphml/>")
    os.symlink(s.path("a"), s.path("link"))
    os.symlink("x.xml", s.path("a/soft.xml"))
    os.link(s.path("a/x.xml"), s.path("hard.xml"))


def path(s, k):
    return PATHS[k][0].format(s.dir)


def same(k, m):
    return PATHS[k][1] == PATHS[m][1]


def check_equal(cls, k, ms):
    with Scratch() as s:
        build(s)
        C = [GraphBank, SparseGraphBank][cls]
        b = C(path(s, k), "alpino")
        eq(b.get_file_path(), os.path.realpath(path(s, k)), "file path")
        holds(os.path.isabs(b.get_file_path()), "file path is absolute", b.get_file_path())
        eq(b.get_format(), "alpino", "format")
        eq(len(b), 0, "graphs before loading")
        for m in ms:
            for D in (GraphBank, SparseGraphBank):
                d = D(path(s, m), "graphml")
                eq(bool(b == d), same(k, m), "equality of %s and %s" % (PATHS[k][0], PATHS[m][0]))
                eq(bool(b != d), not same(k, m), "inequality of %s and %s" % (PATHS[k][0], PATHS[m][0]))


def gen_equal(R):
    n = range(len(PATHS))
    for k in n:
        yield k % 2, k, n


def make(s, pairs, formats="graphml"):
    """pairs: (source path, target path, meta, alignments) by number; negative paths: the bank object of a former pair"""
    out, objs = [], {}
    for a, b, meta, al in pairs:
        banks = []
        for x in (a, b):
            if x < 0:
                x = -x - 1
                banks.append(objs.setdefault(x, GraphBank(path(s, x), formats)))
            else:
                banks.append(GraphBank(path(s, x), formats))
        out.append(pair(banks, ("g%d" % a, "h%d" % b), al, meta))
    return ParallelGraphCorpus(out, RELS)


def ks(p):
    return [x if x >= 0 else -x - 1 for x in p[:2]]


def state(gp):
    s = shown(gp)
    return s[2:]


def check_purge(pairs, only):
    with Scratch() as s:
        build(s)
        c = make(s, pairs)
        want = [ks(p) for p in pairs]
        before = [tuple(gp.get_banks()) for gp in c]
        states = [state(gp) for gp in c]
        order = [id(gp) for gp in c]
        if only is None:
            c.purge()
        else:
            c.purge(c[only])
        eq([id(gp) for gp in c], order, "graph pairs after purging")
        eq([state(gp) for gp in c], states, "graphs, alignments and meta data after purging")
        seen = {}
        for i, gp in enumerate(c):
            banks = gp.get_banks()
            banks = (banks.source, banks.target)
            if only not in (None, i):
                holds(banks[0] is before[i][0] and banks[1] is before[i][1], "other graph pairs keep their banks", i)
                continue
            for b, k in zip(banks, want[i]):
                holds(b == GraphBank(path(s, k), "graphml"), "bank of pair %d is of the same file" % i, b.get_file_path(), path(s, k))
                holds(any(b is x for t in before for x in t), "no new banks")
                holds(seen.setdefault(PATHS[k][1], b) is b, "one bank per file", i, path(s, k))
        if only is None:
            files = set(PATHS[k][1] for w in want for k in w)
            eq(len(set(id(b) for gp in c for b in gp.get_banks())), len(files), "number of banks")
            eq(len(c._graphbanks()), len(files), "number of banks in use")


def check_write(pairs, out, absolute, pprint):
    with Scratch() as s:
        build(s)
        c = make(s, pairs)
        want = [ks(p) for p in pairs]
        states = [shown(gp) for gp in c]
        fn = os.path.join(s.dir, out)
        c.write(fn, abs_path=absolute, pprint=pprint)
        eq([shown(gp) for gp in c], states, "the corpus after writing")
        root = ET.fromstring(slurp(fn))
        files = root.findall("graphbanks/file")
        ids = dict((f.get("id"), f) for f in files)
        eq(len(ids), len(files), "ids of the graph banks are distinct")
        eq(len(files), len(set(PATHS[k][1] for w in want for k in w)), "one file element per file")
        d = os.path.realpath(os.path.dirname(fn))
        for f in files:
            eq(f.get("format"), "graphml", "format")
            eq(os.path.isabs(f.text.strip()), absolute, "absolute path " + f.text)
        where = lambda i: GraphBank(os.path.join(d, ids[i].text.strip()).encode("utf-8"), "graphml")
        els = root.findall("aligned_graphs/graph_pair")
        eq(len(els), len(c), "number of graph pairs")
        for n, (e, w) in enumerate(zip(els, want)):
            for a, k, g in zip(("from", "to"), w, ("g", "h")):
                x = e.get(a + "_bank_id")
                holds(x in ids, "bank id is defined", x)
                holds(where(x) == GraphBank(path(s, k), "graphml"), "graph pair %d refers to the right file" % n, ids[x].text, path(s, k))
                eq(e.get(a + "_graph_id"), "%s%d" % (g, pairs[n][a == "to"]), "graph id")


def some_pairs(R, n):
    ids = range(len(PATHS) - 3)
    r = R.rng
    out = []
    for _ in range(n):
        pool = [r.choice(ids) for _ in range(r.randint(1, 4))]
        k = lambda: r.choice([1, 1, -1]) * r.choice(pool)
        a, b = k(), k()
        out.append((a, b, r.choice([None, None, u"<m/>"]), [("n1", "n2", "equals")][:r.randint(0, 1)]))
    return out


AL = [("n", "m", "equals")]
FIXED = [[], [(0, 0, None, [])], [(0, 1, None, []), (3, 4, None, AL)], [(0, 6, None, AL), (7, 1, None, []), (6, 0, None, AL)],
         [(9, 11, None, []), (10, 9, None, []), (11, 11, None, [])], [(12, 0, None, []), (0, 12, None, AL)],
         [(8, 0, None, []), (0, 8, None, []), (6, 3, None, [])], [(0, 6, u"<m/>", []), (13, 7, None, []), (5, 6, None, [])],
         [(-1, -1, None, []), (-1, 1, None, []), (2, -1, None, [])]]
OUTS = ["o.xml", "a/o.xml", "out/deep/o.xml", "link/o.xml", "c d/o.xml"]


def gen_purge(R):
    for p in FIXED:
        for only in [None] + range(len(p)):
            yield p, only
    while True:
        n = R.rng.randint(0, 6)
        yield some_pairs(R, n), R.rng.choice([None, None] + range(n))


def gen_write(R):
    for p in FIXED:
        for o in OUTS:
            yield p, o, False, False
        yield p, OUTS[0], True, True
        yield p, OUTS[3], True, False
    while True:
        yield some_pairs(R, R.rng.randint(0, 5)), R.rng.choice(OUTS), R.rng.random() < .3, R.rng.random() < .3


GROUPS = [Group("equality", gen_equal, check_equal, "17 spellings of paths (links, hard links, missing files, relative), all pairs", share=.5),
          Group("purge", gen_purge, check_purge, "9 fixed corpora, random corpora of up to 6 graph pairs"),
          Group("write", gen_write, check_write, "the same corpora written to 5 directories, relative and absolute paths")]
