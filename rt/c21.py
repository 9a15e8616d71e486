# -*- coding: utf-8 -*-
from gbgen import *
import sys, math, pickle
from fractions import Fraction as F
from StringIO import StringIO
from c20 import measures, COUNTS, MEAS
from daeso.pgc import agreement
from daeso.pgc.agreement import AnalysesTable


def stats(labels, cell):
    """means and deviations of the columns and overall, leaving out the diagonal"""
    n = len(labels)
    out = {}
    allv = []
    for c in labels:
        vs = [float(cell[r, c]) for r in labels if r != c]
        allv += vs
        m = sum(vs) / len(vs)
        out[c] = m, math.sqrt(sum((v - m) ** 2 for v in vs) / (n - 2)) if n > 2 else 0.0
    m = sum(allv) / len(allv)
    out["overall"] = m, math.sqrt(sum((v - m) ** 2 for v in allv) / (len(allv) - 1))
    return out


def agree(t, labels, cell, what):
    want = stats(labels, cell)
    for k in list(labels) + ["overall"]:
        close(t["mean"][k], want[k][0], "%s: mean of %s" % (what, k))
        close(t["SD"][k], want[k][1], "%s: deviation of %s" % (what, k))
    for r in labels:
        for c in labels:
            if r != c:
                close(t[r][c], float(cell[r, c]), "%s: cell %s %s" % (what, r, c))


def check_table(n, vals, percent):
    labels = ["A%d" % i for i in range(n)]
    t = AnalysesTable(labels)
    cell = {}
    it = iter(vals)
    for r in labels:
        for c in labels:
            if r != c:
                t[r][c] = cell[r, c] = next(it)
    t.calculate_statistics()
    agree(t, labels, cell, "table")
    t.calculate_statistics()
    agree(t, labels, cell, "table calculated twice")
    out = StringIO()
    t.write(out=out, percent=percent, header="HEAD")
    printed(out.getvalue(), labels, cell, percent)


def printed(text, labels, cell, percent):
    want = stats(labels, cell)
    lines = [l for l in text.splitlines() if l.strip() and set(l.strip()) != set("-")]
    eq(lines[0], "HEAD", "heading")
    eq(lines[1].split(), [l + ":" for l in labels] + ["overall:"], "columns")
    f = 100 if percent else 1
    rows = [(r, [cell[r, c] if r != c else None for c in labels]) for r in labels] + [
        ("mean", [want[k][0] for k in labels + ["overall"]]), ("SD", [want[k][1] for k in labels + ["overall"]])]
    eq(len(lines), 2 + len(rows), "lines")
    for l, (r, vs) in zip(lines[2:], rows):
        eq(l[:12].strip(), r + ":", "row heading")
        for k, v in enumerate(vs):
            s = l[12 * (k + 1):12 * (k + 2)].strip()
            if v is None:
                eq(s, "", "diagonal")
            else:
                close(float(s), float(v) * f, "printed value", .011 if percent else .00011)


def gen_table(R):
    r = R.rng
    for n in (2, 3):
        for vals in itertools.product([0, 1], repeat=n * (n - 1)):
            yield n, list(vals), bool(n % 2)
    for vals in itertools.product([-1, 1, .5], repeat=6):
        yield 3, list(vals), vals[0] > 0
    while True:
        n = r.randint(2, 6)
        yield n, [r.choice([0, 1, r.random(), r.uniform(-5, 5)]) for _ in range(n * (n - 1))], r.random() < .5


# ------------------------------------------------------- whole evaluations
def counts(true, pred, rel):
    a = dict(((k, s, t), x) for k, al in enumerate(true) for s, t, x in al)
    b = dict(((k, s, t), x) for k, al in enumerate(pred) for s, t, x in al)
    if rel is None:
        return {"true": len(a), "pred": len(b), "common": len(set(a) & set(b))}
    a = set(k for k in a if a[k] == rel)
    b = set(k for k in b if b[k] == rel)
    return {"true": len(a), "pred": len(b), "common": len(a & b)}


def check_cross(banks, annots, names, words_only):
    """banks: two lists of graphs; annots: per annotator a list of alignments per pair of graphs"""
    with Scratch() as d:
        fns = []
        for i in (0, 1):
            d.put("bank%d.xml" % i, bank_xml(banks[i]))
        for i, als in enumerate(annots):
            pairs = [{"from": ("1", g["id"]), "to": ("2", h["id"]), "align": al} for g, h, al in zip(banks[0], banks[1], als)]
            fns.append(d.put("c%d.pgc" % i, corpus_xml([("1", "bank0.xml"), ("2", "bank1.xml")], pairs)))
        if words_only:
            annots = [[[(s, t, x) for s, t, x in al if s in terminals(g) and t in terminals(h)]
                       for g, h, al in zip(banks[0], banks[1], als)] for als in annots]
        given = names
        names = names or ["A%d" % (i + 1) for i in range(len(annots))]
        pkl = [d.path("ae.pickle"), d.path("all.pickle")]
        ae = agreement.cross_evaluate(fns, given, pickle_fn=pkl[0], words_only=words_only)
        table = agreement.tableize(ae)
        check_all(ae, table, annots, names)
        f = open(pkl[0], "rb")
        try:
            back = pickle.load(f)
        finally:
            f.close()
        check_all(back, agreement.tableize(back), annots, names)
        if given is not None:
            out, sys.stdout = sys.stdout, StringIO()
            try:
                ae, table = agreement.run_eval(fns, names, pickle_fn=pkl[1], words_only=words_only)
            finally:
                out, sys.stdout = sys.stdout, out
            check_all(ae, table, annots, names)
            f = open(pkl[1], "rb")
            try:
                ae, table = pickle.load(f)
            finally:
                f.close()
            check_all(ae, table, annots, names)


def check_all(ae, tables, annots, names):
    n = len(names)
    eq(sorted(ae.names), sorted((a, b) for a in names for b in names if a != b), "one comparison per pair of annotators")
    rels = [None] + ["equals", "restates", "specifies", "generalizes", "intersects"]
    eq(sorted(tables), sorted(r or "__any_rel__" for r in rels), "tables of all relations")
    for rel in rels:
        key = rel or "__any_rel__"
        cell = {}
        for (a, b), row in zip(ae.names, ae[key]):
            c = counts(annots[names.index(a)], annots[names.index(b)], rel)
            eq(row.counts, c, "counts of %s for %s against %s" % (rel, a, b))
            cell[a, b] = measures(c)
        eq(len(ae[key]), n * (n - 1), "one row per comparison")
        for m in MEAS:
            t = tables[key][m]
            eq(sorted(t.labels), sorted(names), "annotators of the table")
            agree(t, t.labels, dict((k, v[m]) for k, v in cell.items()), "%s of %s" % (m, rel))


def gen_cross(R):
    r = R.rng
    while True:
        k = r.randint(1, 2)
        banks = [[rand_graph(r, "g%d" % i, r.randint(1, 4), ["aa", "bb", "cc"]) for i in range(k)] for _ in (0, 1)]
        n = r.randint(2, 3)
        rels = r.sample(RELS, r.randint(1, 3))
        gold = [rand_align(r, g, h, rels, .8) for g, h in zip(*banks)]
        annots = [[[(s, t, r.choice(rels) if r.random() < .3 else x) for s, t, x in al if r.random() < .8] for al in gold]
                  for _ in range(n)]
        yield banks, annots, r.choice([None, ["x", "y", "z"][:n], ["bb", "aa", "cc"][:n]]), r.random() < .5


GROUPS = [Group("tables", gen_table, check_table, "all 0/1 tables of 2 and all 0/1 and -1/1/.5 tables of 3 annotators, random ones of up to 6", share=.4),
          Group("evaluations", gen_cross, check_cross, "random corpora of 2 or 3 annotators with up to 2 pairs of small trees")]
