# -*- coding: utf-8 -*-
from base import *
import math, os, tempfile, shutil, copy
from StringIO import StringIO
from fractions import Fraction as F
from gp import new, RELS
from daeso.pair import Pair
from daeso.pgc.graphpair import GraphMapping, GraphMatching
from daeso.pgc.evaluate import AlignEval, AlignCounts

COUNTS = ("true", "pred", "common")
MEAS = ("prec", "rec", "f")


def corpus(pairs, cls=GraphMapping):
    out = []
    for al in pairs:
        gp = new(cls)
        for s, t, r in al:
            gp.add_align(Pair(s, t), r)
        out.append(gp)
    return out


def measures(c, beta=1):
    p = F(c["common"], c["pred"]) if c["pred"] else F(0)
    r = F(c["common"], c["true"]) if c["true"] else F(0)
    b = F(beta)
    d = b * b * p + r
    return {"prec": p, "rec": r, "f": (b * b + 1) * p * r / d if d else F(0)}


def expected(corpora, rels):
    """counts per relation (None: whatever the relation) and corpus"""
    rows = dict((r, []) for r in list(rels) + [None])
    for true, pred in corpora:
        cs = dict((r, dict.fromkeys(COUNTS, 0)) for r in rows)
        for ta, pa in zip(true, pred):
            td = dict(((s, t), r) for s, t, r in ta)
            pd = dict(((s, t), r) for s, t, r in pa)
            for r in rels:
                A = set(p for p in td if td[p] == r)
                B = set(p for p in pd if pd[p] == r)
                cs[r]["true"] += len(A)
                cs[r]["pred"] += len(B)
                cs[r]["common"] += len(A & B)
            cs[None]["true"] += len(td)
            cs[None]["pred"] += len(pd)
            cs[None]["common"] += len(set(td) & set(pd))
        for r in rows:
            rows[r].append(cs[r])
    return rows


def variance(xs, mean):
    n = len(xs)
    return sum((float(x) - float(mean)) ** 2 for x in xs) / (n - 1) if n > 1 else 0.0


def check_table(t, rows, what):
    n = len(rows)
    eq(len(t), n, "one row per corpus for " + what)
    for i in range(n):
        eq(t[i].counts, rows[i], "counts of corpus %d for %s" % (i, what))
        m = measures(rows[i])
        for k in MEAS:
            close(t[i].measures[k], m[k], "%s of corpus %d for %s" % (k, i, what))
    total = dict((c, sum(x[c] for x in rows)) for c in COUNTS)
    for c in COUNTS:
        s = t.count_stats[c]
        eq(s["sum"], total[c], "sum of %s for %s" % (c, what))
        close(s["mean"], F(total[c], n), "mean of %s for %s" % (c, what))
        v = variance([x[c] for x in rows], F(total[c], n))
        close(s["var"], v, "variance of %s for %s" % (c, what))
        close(s["sd"], math.sqrt(v), "deviation of %s for %s" % (c, what))
    tm = measures(total)
    for m in MEAS:
        xs = [measures(x)[m] for x in rows]
        macro = sum(xs) / n
        for meth, mean in (("macro", macro), ("micro", tm[m])):
            s = t.measure_stats[m][meth]
            close(s["mean"], mean, "%s mean of %s for %s" % (meth, m, what))
            v = variance(xs, mean)
            close(s["var"], v, "%s variance of %s for %s" % (meth, m, what))
            close(s["sd"], math.sqrt(v), "%s deviation of %s for %s" % (meth, m, what))
    return total


def run(corpora, names, rels, cls=GraphMapping):
    ae = AlignEval() if rels is None else AlignEval(relations=rels)
    cs = []
    for (true, pred), name in zip(corpora, names):
        a, b = corpus(true, cls), corpus(pred, cls)
        cs.append((a, b))
        args = () if name is None else (name,)
        ae.add(a, b, *args)
    return ae, cs


def check(corpora, names, rels=None):
    ae, cs = run(corpora, names, rels)
    for ((true, pred), (a, b)) in zip(corpora, cs):
        for al, g in zip(true + pred, a + b):
            eq(sorted((p.source, p.target, r) for p, r in g.alignments()), sorted(al), "corpora are left alone")
    want_names = [n or "part%d" % (i + 1) for i, n in enumerate(names)]
    eq(ae.names, want_names, "names")
    rels = rels or tuple(RELS_DEFAULT)
    rows = expected(corpora, rels)
    ae.run_eval()
    for again in (False, True):
        if again:
            ae.run_eval()     # evaluating twice changes nothing
        check_table(ae[AlignEval.any_rel], rows[None], "any relation")
        tots = dict((r, check_table(ae[r], rows[r], r)) for r in rels)
        tot = dict((c, sum(tots[r][c] for r in rels)) for c in COUNTS)
        for c in COUNTS:
            eq(ae.count_stats[c]["sum"], tot[c], "overall sum of " + c)
        for m in MEAS:
            close(ae.measure_stats[m]["micro"]["mean"], measures(tot)[m], "overall micro mean of " + m)
            close(ae.measure_stats[m]["macro"]["mean"], sum(measures(tots[r])[m] for r in rels) / len(rels),
                  "overall macro mean of " + m)
    out = StringIO()
    ae.write(out)
    report(out.getvalue(), want_names, rels, rows)
    eq(sorted(ae), sorted(list(rels) + [AlignEval.any_rel]), "tables are those of the relations")


RELS_DEFAULT = ["equals", "restates", "specifies", "generalizes", "intersects"]


def line(lines, k, name, vals, what):
    l = lines[k]
    holds(l.startswith(name), what + ": line of " + name, l, name)
    got = l[len(name):].split()
    for g, v in zip(got, vals):
        if isinstance(v, (int, long)):
            eq(g, str(v), what + ": value in line of " + name)
        else:
            close(float(g), round(float(v), 2), what + ": value in line of " + name, 0.011)
    eq(len(got), len(vals), what + ": values in line of " + name)


def table_report(lines, names, rows, what):
    """reads a printed table; returns the remaining lines"""
    n = len(rows)
    total = dict((c, sum(x[c] for x in rows)) for c in COUNTS)
    heads = ["Name:", "True:", "Pred:", "Common:"]
    eq(lines[0].split(), heads, what + ": columns")
    lines = lines[2:]
    for i in range(n):
        line(lines, i, names[i], [rows[i][c] for c in COUNTS], what)
    lines = lines[n + 1:]
    line(lines, 0, "Sum:", [total[c] for c in COUNTS], what)
    means = [F(total[c], n) for c in COUNTS]
    var = [variance([x[c] for x in rows], m) for c, m in zip(COUNTS, means)]
    line(lines, 1, "Mean:", means, what)
    line(lines, 2, "Var:", map(float, var), what)
    line(lines, 3, "Sd:", map(math.sqrt, var), what)
    lines = lines[4:]
    eq(lines[0].split(), ["Name:", "Prec:", "Rec:", "F:"], what + ": columns")
    lines = lines[2:]
    ms = [measures(x) for x in rows]
    for i in range(n):
        line(lines, i, names[i], [float(100 * ms[i][m]) for m in MEAS], what)
    lines = lines[n + 1:]
    tm = measures(total)
    for meth, mean in (("Macro", dict((m, sum(x[m] for x in ms) / n) for m in MEAS)), ("Micro", tm)):
        var = [variance([x[m] for x in ms], mean[m]) for m in MEAS]
        line(lines, 0, meth + " Mean:", [float(100 * mean[m]) for m in MEAS], what)
        line(lines, 1, meth + " Var:", [100 * v for v in var], what)
        line(lines, 2, meth + " Sd:", [100 * math.sqrt(v) for v in var], what)
        lines = lines[3:]
    return lines


def report(text, names, rels, rows):
    lines = [l for l in text.splitlines() if l.strip()]

    def to(s):
        while lines and not lines[0].split()[:len(s.split())] == s.split():
            holds(not any(lines[0].startswith(n) for n in names), "report: unexpected line", lines[0])
            lines.pop(0)
        holds(lines, "report: section " + s, text)
    to("Name:")
    lines[:] = table_report(lines, names, rows[None], "report of any relation")
    for r in rels:
        to(r.upper())
        lines.pop(0)
        lines[:] = table_report(lines, names, rows[r], "report of " + r)
    to("Relation:")
    tots = dict((r, dict((c, sum(x[c] for x in rows[r])) for c in COUNTS)) for r in rels)
    tot = dict((c, sum(tots[r][c] for r in rels)) for c in COUNTS)
    for i, r in enumerate(rels):
        line(lines, 2 + i, r, [tots[r][c] for c in COUNTS], "overall report")
    lines[:] = lines[3 + len(rels):]
    line(lines, 0, "Sum:", [tot[c] for c in COUNTS], "overall report")
    to("Relation:")
    for i, r in enumerate(rels):
        line(lines, 2 + i, r, [float(100 * measures(tots[r])[m]) for m in MEAS], "overall report")
    lines[:] = lines[3 + len(rels):]
    line(lines, 0, "Macro Mean:", [float(100 * sum(measures(tots[r])[m] for r in rels) / len(rels)) for m in MEAS],
         "overall report")
    line(lines, 1, "Micro Mean:", [float(100 * measures(tot)[m]) for m in MEAS], "overall report")


def check_counts(true, pred, common, beta):
    c = AlignCounts()
    eq(c.counts, dict.fromkeys(COUNTS, 0), "counts start at zero")
    c.counts.update(true=true, pred=pred, common=common)
    if beta is None:
        c.run_eval()
    else:
        c.run_eval(beta)
    m = measures(c.counts, F(str(1 if beta is None else beta)))
    for k in MEAS:
        close(c.measures[k], m[k], "%s of the counts" % k)
        holds(0 <= c.measures[k] <= 1, "%s is between zero and one" % k, c.measures[k])
    eq(c.counts, {"true": true, "pred": pred, "common": common}, "counts unchanged")
    d = AlignCounts()
    eq(d.counts, dict.fromkeys(COUNTS, 0), "other counts are independent")


def gen_counts(R):
    n = R.pick(7, 12)
    for t in range(n):
        for p in range(n):
            for c in range(min(t, p) + 1):
                for b in (None, 0, 0.5, 1, 0.1):
                    yield t, p, c, b
    yield 10 ** 12, 10 ** 12 + 1, 10 ** 11, 1


def check_misc(k):
    if k == 0:
        ae = AlignEval()
        a = corpus([[("n", "m", "equals")]])
        raises(AssertionError, "corpora of different size", ae.add, a, [])
        raises(AssertionError, "corpora of different size", ae.add, [], a)
        eq(ae.names, [], "a refused corpus leaves no trace")
        eq([len(t) for t in ae.values()], [0] * 6, "a refused corpus leaves no trace")
    if k == 1:
        c = AlignCounts()
        for b in (-0.1, 1.1, 2):
            raises(AssertionError, "beta outside of its range", c.run_eval, b)
    if k == 2:
        d = tempfile.mkdtemp()
        try:
            ae, _ = run([([[("n", "m", "equals")]], [[("n", "m", "restates")]])], ["x"], None)
            ae.run_eval()
            fn = os.path.join(d, "report")
            ae.write(fn)
            out = StringIO()
            ae.write(out)
            f = open(fn)
            got = f.read()
            f.close()
            eq(got, out.getvalue(), "report written to a file")
        finally:
            shutil.rmtree(d)
    if k == 3:
        # a matching keeps one alignment per node
        ae, _ = run([([[("n", "m", "equals"), ("k", "l", "restates")]], [[("n", "m", "equals"), ("k", "m", "equals")]])], ["x"],
                    None, GraphMatching)
        ae.run_eval()
        eq(ae["equals"][0].counts, {"true": 1, "pred": 1, "common": 0}, "counts of matchings")


def align(r, rels, nodes):
    d = {}
    for _ in range(r.randint(0, 4)):
        d[r.choice(nodes), r.choice(nodes)] = r.choice(rels)
    return [(s, t, x) for (s, t), x in sorted(d.items())]


def gen_small(R):
    """all pairs of alignments of at most two node pairs with two relations"""
    opts = []
    for c in itertools.product([None, "equals", "restates"], repeat=2):
        opts.append([(s, t, r) for (s, t), r in zip([("n", "m"), ("m", "n")], c) if r])
    for a in opts:
        for b in opts:
            yield [([a], [b])], [None], None
    for a, b in itertools.product(opts, opts):
        yield [([a, b], [b, a]), ([b], [b])], ["first", None], None


def gen_random(R):
    r = R.rng
    while True:
        rels = r.choice([None, None, ("equals",), ("r1", "r2", "r3")])
        rs = rels or RELS_DEFAULT
        rs = r.sample(list(rs), r.randint(1, len(rs)))
        cs, names = [], []
        for i in range(r.randint(1, 4)):
            n = r.randint(0, 3)
            nodes = [0, "", "n", "m"][:r.randint(1, 4)]
            true = [align(r, rs, nodes) for _ in range(n)]
            pred = [align(r, rs, nodes) if r.random() < .5 else
                    [(s, t, r.choice(rs)) for s, t, x in a if r.random() < .8] for a in true]
            cs.append((true, pred))
            names.append(r.choice([None, "name%d" % i, "a-rather-long-name-%d" % i]))
        yield cs, names, rels


GROUPS = [
    Group("counts", gen_counts, check_counts, "all counts below 7 (quick) or 12, five values of beta", share=.3),
    Group("misc", lambda R: iter([(k,) for k in range(4)]), check_misc, "fixed cases of errors and writing to a file", share=.1),
    Group("small corpora", gen_small, check, "all pairs of alignments of two node pairs and two relations"),
    Group("random corpora", gen_random, check, "random lists of up to 4 corpora of up to 3 pairs with up to 4 alignments")]
