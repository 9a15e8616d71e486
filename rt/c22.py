# -*- coding: utf-8 -*-
from pgcgen import *
from daeso.pgc import pgcstats
from daeso.gb import gbstats
from daeso.stats import corpus as segstats
from daeso.stats.table import StatsTable, Column, percent
from daeso.gb.graphbank import GraphBank
import StringIO, string

# only graphs in alpino format know of failed parses and empty nodes; here those with such an id or label
DaesoGraph.is_failed_parse = lambda self: self.id.startswith("failed")
DaesoGraph.node_is_empty = lambda self, n: self.node[n]["label"] == "trace"

COUNTS = ["CGP", "CGPFU", "CGPFP", "CGPUR", "CNP", "CEQ", "CRE", "CGEN", "CSPEC", "CINT"]
GCOUNTS = ["CG", "CGA", "CGU", "CGSA", "CGMA", "CGUR", "CGFP", "CT", "CN", "CNA", "CNU"]
SHORT = {"equals": "CEQ", "restates": "CRE", "generalizes": "CGEN", "specifies": "CSPEC", "intersects": "CINT"}


def is_punct(tokens):
    return all(t in string.punctuation for t in tokens.split(" "))


def pct(a, b):
    return 100.0 * a / b if b else 0.0


def oracle(banks, pairs, o):
    """counts of one corpus and of each of its banks"""
    graphs = dict(((k, g["id"]), g) for k, (_, gs) in enumerate(banks) for g in gs)
    row = dict.fromkeys(COUNTS, 0)
    src, tgt, bad, nodes = {}, {}, set(), set()
    for p in pairs:
        a, b = tuple(p["from"]), tuple(p["to"])
        g, h = graphs[a], graphs[b]
        failed = g["id"].startswith("failed") or h["id"].startswith("failed")
        root = (g["root"], h["root"]) in [x[:2] for x in p["align"]]
        if failed and not o["failed"] or not root and not o["unrooted"]:
            continue
        row["CGP"] += 1
        row["CGPFP"] += failed
        row["CGPUR"] += not root
        row["CGPFU"] += root and not failed
        src[a] = src.get(a, 0) + 1
        tgt[b] = tgt.get(b, 0) + 1
        if not root:
            bad |= set([a, b])
        info = [dict((n, (l == "trace", is_punct(t))) for n, l, t in x["nodes"]) for x in (g, h)]
        for s, t, r in p["align"]:
            x, y = info[0][s], info[1][t]
            if not o["empty"] and (x[0] or y[0]) or not o["punct"] and (x[1] or y[1]):
                continue
            row["CNP"] += 1
            row[SHORT[r]] += 1
            nodes |= set([a + (s,), b + (t,)])
    for k, c in (("PGPFU", "CGPFU"), ("PGPFP", "CGPFP"), ("PGPUR", "CGPUR")):
        row[k] = pct(row[c], row["CGP"])
    for k in ("EQ", "RE", "GEN", "SPEC", "INT"):
        row["P" + k] = pct(row["C" + k], row["CNP"])
    rows = []
    used = set(k for p in pairs for k in (p["from"][0], p["to"][0]))
    for k in sorted(used):
        b = dict.fromkeys(GCOUNTS, 0)
        clear = True      # no graph is used both as a source and as a target
        for g in banks[k][1]:
            i = (k, g["id"])
            failed, unrooted, n = g["id"].startswith("failed"), i in bad, src.get(i, 0) + tgt.get(i, 0)
            if failed and not o["failed"] or unrooted and not o["unrooted"] or not n and not o["unaligned"]:
                continue
            b["CG"] += 1
            b["CGFP"] += failed
            b["CGUR"] += unrooted
            b["CGA"] += n > 0
            b["CGU"] += n == 0
            b["CGSA"] += n == 1
            b["CGMA"] += n > 1
            clear = clear and not (src.get(i) and tgt.get(i))
            b["CT"] += len([t for t in g["tokens"].split() if o["punct"] or t not in string.punctuation])
            for m, l, t in g["nodes"]:
                if not o["empty"] and l == "trace" or not o["punct"] and is_punct(t):
                    continue
                b["CN"] += 1
                b["CNA"] += i + (m,) in nodes
                b["CNU"] += i + (m,) not in nodes
        for x, y, z in (("PGA", "CGA", "CG"), ("PGFP", "CGFP", "CG"), ("PGUR", "CGUR", "CG"), ("PGSA", "CGSA", "CGA"),
                        ("PGMA", "CGMA", "CGA"), ("PNA", "CNA", "CN")):
            b[x] = pct(b[y], b[z])
        b["ATG"] = 1.0 * b["CT"] / b["CG"] if b["CG"] else 0.0
        b["ANG"] = 1.0 * b["CN"] / b["CG"] if b["CG"] else 0.0
        b["BANK"] = os.path.basename(banks[k][0])
        b["clear"] = clear
        rows.append(b)
    return row, rows


def same_row(table, i, want, what):
    for k, x in want.items():
        if k == "clear" or not want.get("clear", True) and k in ("CGSA", "CGMA", "PGSA", "PGMA"):
            continue
        if isinstance(x, float):
            close(table[k][i], x, what + ": " + k)
        else:
            ueq(table[k][i], x, what + ": " + k)


def overalls(table, rows, pcts):
    """the sums of the counts, and percentages and averages of the sums"""
    tot = {}
    for c in table.values():
        if c.type == "count":
            tot[c.label] = sum(c)
            eq(c.overall, tot[c.label], "sum of " + c.label)
    for x, y, z, f in pcts:
        if tot[z]:
            close(table[x].overall, f * tot[y] / float(tot[z]), "overall of " + x)
        else:
            eq(table[x].overall, None, "no overall of " + x)


PP = [("PGPFP", "CGPFP", "CGP", 100), ("PGPUR", "CGPUR", "CGP", 100), ("PGPFU", "CGPFU", "CGP", 100)] + [
    ("P" + k, "C" + k, "CNP", 100) for k in ("EQ", "RE", "GEN", "SPEC", "INT")]
GP_ = [("PGA", "CGA", "CG", 100), ("PGFP", "CGFP", "CG", 100), ("PGUR", "CGUR", "CG", 100), ("PGSA", "CGSA", "CGA", 100),
       ("PGMA", "CGMA", "CGA", 100), ("PNA", "CNA", "CN", 100), ("ATG", "CT", "CG", 1), ("ANG", "CN", "CG", 1)]


def put_corpora(s, corpora, sub=""):
    fns = []
    for n, (banks, pairs) in enumerate(corpora):
        for k, (p, gs) in enumerate(banks):
            s.put(os.path.join(sub, "c%d" % n, p), bank_xml(gs))
        ps = [dict(p, **{"from": (str(p["from"][0]), p["from"][1]), "to": (str(p["to"][0]), p["to"][1])}) for p in pairs]
        fns.append(s.put(os.path.join(sub, "corpus%d.pgc" % n), corpus_xml(
            [(str(k), os.path.join("c%d" % n, p)) for k, (p, _) in enumerate(banks)], ps)))
    return fns


def order(rows, table, at):
    """rows of banks in the order of the table"""
    names = list(table["BANK"])[at:at + len(rows)]
    eq(sorted(names), sorted(r["BANK"] for r in rows), "banks")
    return [[r for r in rows if r["BANK"] == n][0] for n in names]


def check_stats(corpora, o):
    with Scratch() as s:
        fns = put_corpora(s, corpora)
        pt, gt = pgcstats.pgc_stats(fns, o["empty"], o["failed"], o["punct"], o["unrooted"], 0, o["unaligned"])
        at = 0
        for i, (banks, pairs) in enumerate(corpora):
            row, rows = oracle(banks, pairs, o)
            eq(pt["CORPUS"][i], os.path.basename(fns[i]), "name of corpus")
            same_row(pt, i, row, "corpus %d" % i)
            for j, r in enumerate(order(rows, gt, at)):
                same_row(gt, at + j, r, "bank %d of corpus %d" % (j, i))
            at += len(rows)
        for t, n in ((pt, len(corpora)), (gt, at)):
            eq(set(len(c) for c in t.values()), set([n]), "rows of every column")
        overalls(pt, None, PP)
        overalls(gt, None, GP_)
        # banks without a corpus
        for k, (p, gs) in enumerate(corpora[0][0]):
            fn = s.put("solo/" + os.path.basename(p), bank_xml(gs))
            t = gbstats.gb_stats([fn, fn], "graphml", o["empty"], o["failed"], o["punct"])
            ps = [{"from": (0, gs[0]["id"]), "to": (0, gs[0]["id"]), "align": [(gs[0]["root"], gs[0]["root"], "equals")]}]
            want = dict(o, unrooted=True, unaligned=True)
            _, (r,) = oracle([(p, [dict(g, id=g["id"]) for g in gs])], [{"from": (0, gs[0]["id"]), "to": (0, gs[0]["id"]),
                                                                       "align": []}], dict(want, failed=False, unrooted=False))
            full = [g for g in gs if o["failed"] or not g["id"].startswith("failed")]
            eq(list(t["CG"]), [len(full)] * 2, "graphs of a bank")
            eq(list(t["CGU"]), [len(full)] * 2, "unaligned graphs of a bank")
            eq(list(t["CGFP"]), [len([g for g in full if g["id"].startswith("failed")])] * 2, "failed parses of a bank")
            eq(list(t["CT"]), [sum(len([x for x in g["tokens"].split() if o["punct"] or x not in string.punctuation]) for g in full)] * 2,
               "tokens of a bank")
            overalls(t, None, GP_)


def check_table(kind, rows, legenda, extra):
    """what is written is read again"""
    t = {"pgc": pgcstats.PgcStatsTable, "gb": gbstats.GbStatsTable}[kind]()
    eq(t.is_empty(), True, "a new table is empty")
    t.grow(len(rows))
    eq(t.is_empty(), not rows, "empty iff without rows")
    labels = list(t.keys())
    for i, r in enumerate(rows):
        for l, x in zip(labels, r):
            t[l][i] = x
    t.summarize()
    with Scratch() as s:
        fn = s.path("table")
        f = open(fn, "w")
        t.write(legenda=legenda, out=f)
        f.close()
        text = slurp(fn)
        for l in labels:
            holds(l in text.split("\n")[0], "label in the header", l)
        again = t.__class__()
        again.read(fn)
        for _ in range(extra):
            f = open(fn)
            again.read(f)
            f.close()
        for l in labels:
            want = list(t[l]) * (1 + extra)
            if t[l].type in ("count", "string"):
                eq(list(again[l]), want, "column read: " + l)
            else:
                eq(["%.2f" % x for x in again[l]], ["%.2f" % x for x in want], "column read: " + l)
        again.summarize()
        for l in labels:
            if t[l].type == "count":
                eq(again[l].overall, t[l].overall * (1 + extra), "overall of what is read")
        raises(EOFError, "truncated table", t.__class__().read, StringIO.StringIO("\n".join(text.split("\n")[:2 + len(rows)])))


def check_seg(dirs, targets):
    """dirs: {annotation: {subsegment: corpora}}"""
    old, out = os.getcwd(), sys.stdout
    with Scratch() as s:
        for a, subs in dirs.items():
            for b, corpora in subs.items():
                put_corpora(s, corpora, os.path.join("seg/pgc", a, b))
        os.mkdir(s.path("work"))
        os.chdir(s.path("work"))
        err = sys.stderr
        sys.stdout = sys.stderr = StringIO.StringIO()
        try:
            subs = sorted(set(b for x in dirs.values() for b in x))
            segstats.corpus_seg_stats([], s.path("seg"), subseg_dirs=subs)
            if targets:
                # the other tables are read
                segstats.corpus_seg_stats(targets, s.path("seg") + "/", subseg_dirs=subs)
        finally:
            sys.stdout, sys.stderr = out, err
            os.chdir(old)
        tot = dict.fromkeys(COUNTS, 0)
        for a in ("ma", "aa", "na"):
            sub = dict.fromkeys(COUNTS, 0)
            for b in sorted(dirs.get(a, {})):
                t = pgcstats.PgcStatsTable()
                fn = s.path("work", "stats.seg.%s.%s.pgc" % (a, b))
                if not dirs[a][b]:
                    eq(os.path.exists(fn), False, "no table without corpora")
                    continue
                t.read(fn)
                names = list(t["CORPUS"])
                eq(sorted(names), ["corpus%d.pgc" % k for k in range(len(dirs[a][b]))], "corpora of a subsegment")
                for k, (banks, pairs) in enumerate(dirs[a][b]):
                    row, _ = oracle(banks, pairs, {"empty": False, "failed": False, "punct": False, "unrooted": a == "na", "unaligned": False})
                    for c in COUNTS:
                        eq(t[c][names.index("corpus%d.pgc" % k)], row[c], "count of " + c)
                        sub[c] += row[c]
            fn = s.path("work", "stats.seg.%s.pgc" % a)
            if os.path.exists(fn):
                t = pgcstats.PgcStatsTable()
                t.read(fn)
                for c in COUNTS:
                    eq(sum(t[c]), sub[c], "total of " + c)
            for c in COUNTS:
                tot[c] += sub[c]
        if any(x for y in dirs.values() for x in y.values()):
            t = pgcstats.PgcStatsTable()
            t.read(s.path("work", "stats.seg.pgc"))
            for c in COUNTS:
                eq(sum(t[c]), tot[c], "overall of " + c)


OPT = [dict(zip(("empty", "failed", "punct", "unrooted", "unaligned"), x)) for x in itertools.product((False, True), repeat=5)]
T1 = {"id": "g1", "tokens": u"the cat .", "root": "n0", "nodes": [("n0", "S", "the cat ."), ("n1", "NP", "the cat"), ("n2", "the", "the"),
      ("n3", "cat", "cat"), ("n4", ".", "."), ("n5", "trace", "*")], "edges": [("n0", "n1", None), ("n1", "n2", None), ("n1", "n3", None),
                                                                          ("n0", "n4", None), ("n0", "n5", None)]}
T2, T3, T4 = dict(T1, id="failed2"), dict(T1, id="g3"), dict(T1, id="g4", tokens=u"a () . -- b")
FULL = [("n0", "n0", "equals"), ("n1", "n1", "restates"), ("n2", "n3", "generalizes"), ("n3", "n2", "specifies"), ("n4", "n4", "equals"),
        ("n5", "n5", "intersects")]


def P(a, b, align):
    return {"from": a, "to": b, "align": align}


B2 = [("x.xml", [T1, T2, T3]), ("y z.xml", [T1, T2, T3, T4])]
CS = [(B2, [P((0, "g1"), (1, "g1"), FULL)]), (B2, []),
      (B2, [P((0, "g1"), (1, "g1"), FULL), P((0, "g1"), (1, "g3"), FULL[1:]), P((0, "failed2"), (1, "g4"), FULL[:2]),
            P((0, "g3"), (1, "failed2"), FULL[3:])]),
      (B2, [P((0, "failed2"), (1, "failed2"), FULL[2:])]), (B2, [P((0, "g3"), (1, "g1"), FULL[4:5])]),
      (B2, [P((0, "g1"), (1, "g%d" % k), FULL[:k]) for k in (1, 3, 4)])]


def rand_corpus(r):
    banks = []
    for k in range(r.randint(1, 3)):
        gs = [rand_graph(r, r.choice(["g%d", "g%d", "failed%d"]) % j, 3) for j in range(r.randint(1, 4))]
        for g in gs:
            if r.random() < .4:
                g["nodes"].append(("e", "trace", r.choice(["t", "."])))
                g["edges"].append(("n0", "e", None))
        banks.append(("b%d.xml" % k, gs))
    pairs = []
    for _ in range(r.randint(0, 6)):
        a, b = r.randrange(len(banks)), r.randrange(len(banks))
        g, h = r.choice(banks[a][1]), r.choice(banks[b][1])
        al = rand_align(r, g, h, p=.7)
        if r.random() < .6:
            al = [x for x in al if x[0] != "n0" and x[1] != "n0"] + [("n0", "n0", "equals")]
        if a != b:
            pairs.append(P((a, g["id"]), (b, h["id"]), al))
    return banks, pairs


def gen_stats(R):
    for c in CS:
        for o in OPT[::1 if R.deep else 3]:
            yield [c], o
    yield CS, OPT[-1]
    yield CS, OPT[0]
    r = R.rng
    while True:
        yield [rand_corpus(r) for _ in range(r.randint(1, 3))], r.choice(OPT)


def rand_row(r, kind):
    t = {"pgc": pgcstats.PgcStatsTable, "gb": gbstats.GbStatsTable}[kind]()
    return [{"count": r.choice([0, 1, 7, 123, 99999, 1234567]), "string": r.choice(["a.pgc", "b", "x_y-z.gb.xml", "a b.pgc", "1 2 3.pgc"])}.get(
        c.type, r.choice([0.0, 100.0, 33.3333, 12.5, 99.999, .004])) for c in t.values()]


def gen_table(R):
    r = R.rng
    for kind in ("pgc", "gb"):
        yield kind, [], True, 0
        yield kind, [rand_row(r, kind)], False, 1
    while True:
        k = r.choice(["pgc", "gb"])
        yield k, [rand_row(r, k) for _ in range(r.randint(0, 6))], r.random() < .5, r.choice([0, 0, 1, 2])


def gen_seg(R):
    yield {"ma": {"s": [CS[0], CS[2]]}, "na": {"s": [CS[2], CS[3]]}}, []
    yield {"ma": {"s": []}}, []
    yield {"aa": {"s": [CS[1]], "t": [CS[5], CS[4]]}, "ma": {"t": [CS[0]]}}, ["all"]
    r = R.rng
    while True:
        dirs = dict((a, dict((b, [rand_corpus(r) for _ in range(r.randint(0, 2))]) for b in "st"[:r.randint(1, 2)]))
                    for a in ("ma", "aa", "na") if r.random() < .7)
        if dirs:
            yield dirs, r.choice([[], ["all"], ["ma"], ["s"], ["na.t"], ["ma", "t"]])


GROUPS = [Group("statistics", gen_stats, check_stats, "6 fixed corpora with combinations of options; random corpora of up to 6 graph pairs"),
          Group("tables", gen_table, check_table, "random tables of up to 6 rows"),
          Group("segments", gen_seg, check_seg, "3 fixed segments; random ones")]
