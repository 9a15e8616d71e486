# -*- coding: utf-8 -*-
from base import *
from c03 import funs, table, increasing, score, rand_funs
from daeso.string.smith_waterman import smith_waterman
from daeso.string.waterman_eggert import waterman_eggert


def span(al):
    return al[0][0], al[0][1], al[-1][0] + 1, al[-1][1] + 1


def local_ok(al, T, a, b, s, g, what):
    best = max(T.values())
    if best <= 0:
        eq(list(al), [], what + ": empty when no score is positive")
        return
    holds(len(al) > 0, what + ": not empty when there is a positive score", al)
    increasing(al, len(a), len(b), what)
    i, j, ie, je = span(al)
    close(score(al, a, b, s, g, i, j, ie, je), best, what + ": has the maximal local score")


def check_sw(kind, a, b, sim, gap):
    s, g = funs(sim, gap)
    x, y = as_kind(a, kind), as_kind(b, kind)
    tb, al = smith_waterman(x, y, s, g)
    T = table(a, b, s, g, True)
    eq(set(tb), set(T), "table has exactly the cells of the matrix")
    for k in T:
        close(tb[k][0], T[k], "score of cell %r" % (k,))
    local_ok(al, T, a, b, s, g, "alignment")


def check_we(kind, a, b, sim, gap, limit):
    s, g = funs(sim, gap)
    x, y = as_kind(a, kind), as_kind(b, kind)
    tabs, als = waterman_eggert(x, y, s, g, limit)
    eq(len(tabs), len(als), "one table per alignment")
    if limit:
        holds(len(als) <= limit, "at most `limit` alignments", len(als), limit)
    T = table(a, b, s, g, True)
    best = max(T.values())
    if best <= 0:
        eq(als, [], "no alignment when no score is positive")
        return
    holds(len(als) >= 1, "some alignment when a score is positive", als)
    eq(set(tabs[0]), set(T), "first table has exactly the cells of the matrix")
    for k in T:
        close(tabs[0][k][0], T[k], "first table, score of cell %r" % (k,))
    local_ok(als[0], T, a, b, s, g, "first alignment")
    for t, al in zip(tabs, als):
        increasing(al, len(a), len(b), "alignment")
        eq(set(t), set(T), "every table has the cells of the matrix")


def gen(R):
    base = {("a", "a"): 1, ("b", "b"): 2, ("a", "b"): -1}
    for a in words("ab", 3):
        for b in words("ab", 3):
            yield "list", a, b, base, {"a": -1, "b": -2}
    for k in ("str", "tuple"):
        for a in words("ab", 2):
            for b in words("ab", 3):
                yield k, a, b, base, {"a": -0.5, "b": -1}
    while True:
        L = "abcd"[:R.rng.randint(1, 4)]
        sim, gap = rand_funs(R.rng, L)
        yield (R.rng.choice(["list", "str", "tuple"]), rand_word(R.rng, L, 9),
               rand_word(R.rng, L, 9), sim, gap)


def gen_we(R):
    for c in gen(R):
        lim = R.rng.randint(1, 4)
        yield c + (lim,)


GROUPS = [
    Group("smith-waterman", gen, check_sw,
          "all pairs over 2 letters up to length 3, then random sequences up to length 9 with random "
          "similarity tables and negative gap costs"),
    Group("waterman-eggert", gen_we, check_we, "the same with limit 1..4"),
]
