# -*- coding: utf-8 -*-
from base import *
from daeso.string.median import set_median_string


def check(kind, strings, dists):
    """dists[i][j], i > j: arbitrary symmetric distances"""
    n = len(strings)
    ss = [as_kind(list(s), kind) for s in strings]
    idx = {}
    for i, s in enumerate(strings):
        idx.setdefault(s, i)

    def d(x, y):
        i, j = idx["".join(x)], idx["".join(y)]
        return 0 if i == j else dists[max(i, j)][min(i, j)]
    r = set_median_string(ss, d)
    tot = [sum(d(s, t) for t in ss) for s in ss]
    k = tot.index(min(tot))
    eq(r, ss[k], "first string with the minimal summed distance")
    holds(any(r is s for s in ss), "one of the strings", r)
    eq(ss, [as_kind(list(s), kind) for s in strings], "strings unchanged")


def gen(R):
    pool = ["a", "b", "ab", "ba", "abc", "", "c"]
    for n in range(1, 4):
        for t in itertools.product([0, 1, 2], repeat=n * (n - 1) // 2):
            it = iter(t)
            yield "str", pool[:n], [[next(it) for j in range(i)] for i in range(n)]
    while True:
        n = R.rng.randint(1, 7)
        ss = [R.rng.choice(pool) for _ in range(n)]
        yield (R.rng.choice(["str", "tuple"]), ss,
               [[R.rng.choice([0, 1, 2, 3, 0.5, 1.25]) for j in range(i)] for i in range(n)])


GROUPS = [Group("set-median", gen, check, "all distance tables over {0,1,2} for up to 3 strings, then "
                "random for up to 7 strings")]
