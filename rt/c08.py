# -*- coding: utf-8 -*-
from base import *
import math
from daeso.string import tf_idf as W


def check(docs, kind):
    ds = [as_kind(d, kind) for d in docs]
    N = len(docs)
    terms = sorted(set(t for d in docs for t in d))
    df = dict((t, len([d for d in docs if t in d])) for t in terms)
    ts, tfs = W.calculate_term_frequencies(ds)
    eq(list(ts), terms, "all terms, sorted")
    eq([dict(x) for x in tfs], [dict((t, d.count(t)) for t in set(d)) for d in docs], "term frequencies")
    eq(dict(W.calculate_document_frequencies(tfs)), df, "document frequencies")
    for norm in (False, True):
        k = math.log(N) if norm and N > 1 else 1
        idf = dict((t, math.log(float(N) / df[t]) / k) for t in terms)
        a, ws = W.idf(ds, norm)
        eq(list(a), terms, "terms of idf")
        same(ws, [[idf[t] for t in terms] for _ in docs], "idf")
        if norm:
            for w in ws:
                for v in w:
                    holds(-1e-9 <= v <= 1 + 1e-9, "normalized idf in [0, 1]", v)
        for ind in (False, True):
            a, ws = W.tf_idf(ds, norm, ind)
            eq(list(a), terms, "terms of tf*idf")
            same(ws, [[(float(t in d) if ind else (float(d.count(t)) / len(d) if d else 0.0)) * idf[t]
                       for t in terms] for d in docs], "tf*idf normalized=%s indicator=%s" % (norm, ind))
    same(W.tf_idf(ds)[1], W.tf_idf(ds, False, False)[1], "defaults")
    same(W.idf(ds)[1], W.idf(ds, False)[1], "idf defaults")
    eq(ds, [as_kind(d, kind) for d in docs], "documents unchanged")


def same(got, exp, what):
    eq(len(got), len(exp), what + ": one row per document")
    for g, e in zip(got, exp):
        eq(len(g), len(e), what + ": one weight per term")
        for x, y in zip(g, e):
            close(x, y, what)


def gen(R):
    for n in range(3):
        for ds in itertools.product(list(words("ab", 2)), repeat=n):
            yield list(ds), "list"
    while True:
        yield ([rand_word(R.rng, "abcdef", 8) for _ in range(R.rng.randint(0, 5))],
               R.rng.choice(["list", "tuple"]))


GROUPS = [Group("weights", gen, check, "all collections of 0..2 documents over 2 terms up to length 2, then "
                "random collections up to 5 documents of 8 terms")]
