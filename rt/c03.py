# -*- coding: utf-8 -*-
from base import *
from fractions import Fraction
from daeso.string.needleman_wunsch import needleman_wunsch

# similarity and gap functions are tables over the letters (exact fractions)


def funs(sim, gap):
    def s(x, y):
        return sim.get((x, y), sim.get((y, x), 0))

    def g(x):
        return gap.get(x, -1)
    return s, g


def table(a, b, s, g, local=False):
    T = {}
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if local and (i == 0 or j == 0):
                T[i, j] = 0
            elif i == 0 and j == 0:
                T[i, j] = 0
            elif j == 0:
                T[i, j] = T[i-1, 0] + g(a[i-1])
            elif i == 0:
                T[i, j] = T[0, j-1] + g(b[j-1])
            else:
                T[i, j] = max(T[i-1, j] + g(a[i-1]), T[i, j-1] + g(b[j-1]),
                              T[i-1, j-1] + s(a[i-1], b[j-1]))
                if local:
                    T[i, j] = max(0, T[i, j])
    return T


def increasing(al, n, m, what):
    for q, p in enumerate(al):
        holds(len(p) == 2 and 0 <= p[0] < n and 0 <= p[1] < m, what + ": pair of positions", al)
        if q:
            holds(al[q-1][0] < p[0] and al[q-1][1] < p[1], what + ": strictly increasing", al)


def score(al, a, b, s, g, i=0, j=0, ie=None, je=None):
    """similarities of aligned pairs plus gap costs of everything skipped"""
    ie = len(a) if ie is None else ie
    je = len(b) if je is None else je
    xs, ys = set(p[0] for p in al), set(p[1] for p in al)
    return (sum(s(a[x], b[y]) for x, y in al) + sum(g(a[x]) for x in range(i, ie) if x not in xs) +
            sum(g(b[y]) for y in range(j, je) if y not in ys))


def check(kind, a, b, sim, gap):
    s, g = funs(sim, gap)
    x, y = as_kind(a, kind), as_kind(b, kind)
    tb, al = needleman_wunsch(x, y, s, g)
    eq(x, as_kind(a, kind), "first sequence unchanged")
    eq(y, as_kind(b, kind), "second sequence unchanged")
    T = table(a, b, s, g)
    eq(set(tb), set(T), "table has exactly the cells of the matrix")
    for k in T:
        close(tb[k][0], T[k], "score of cell %r" % (k,))
    increasing(al, len(a), len(b), "alignment")
    close(score(al, a, b, s, g), T[len(a), len(b)], "score of the alignment is the optimum")


def rand_funs(rng, letters):
    sim = {}
    for x in letters:
        for y in letters:
            if x <= y:
                sim[x, y] = rng.choice([-3, -2, -1, -0.5, 0, 0.25, 0.5, 1, 2, 3]) if x != y else \
                    rng.choice([0, 0.5, 1, 1, 2, 4])
    gap = dict((x, rng.choice([-3, -2, -1, -1, -0.5, -0.25])) for x in letters)
    return sim, gap


def gen(R):
    base = {("a", "a"): 1, ("b", "b"): 2, ("a", "b"): -1}
    for a in words("ab", 3):
        for b in words("ab", 3):
            yield "list", a, b, base, {"a": -1, "b": -2}
    for k in ("str", "tuple"):
        for a in words("ab", 2):
            for b in words("ab", 3):
                yield k, a, b, base, {"a": -0.5, "b": -1}
    while True:
        L = "abcd"[:R.rng.randint(1, 4)]
        sim, gap = rand_funs(R.rng, L)
        if R.rng.random() < 0.2:
            gap = dict((x, R.rng.choice([-2, -1, 0, 0.5])) for x in L)
        yield (R.rng.choice(["list", "str", "tuple"]), rand_word(R.rng, L, 9),
               rand_word(R.rng, L, 9), sim, gap)


GROUPS = [Group("global-alignment", gen, check,
                "all pairs over 2 letters up to length 3, then random sequences up to length 9 with "
                "random similarity and gap tables")]
