# -*- coding: utf-8 -*-
from base import *
import copy
from daeso.pair import Pair

VALS = [None, 0, "a", u"\xe9", ("x",), [], 1.5]


def check(i, j, k, l):
    a, b, c, d = VALS[i], VALS[j], VALS[k], VALS[l]
    p, q = Pair(a, b), Pair(c, d)
    holds(p.source is a and p.target is b, "fields as given", (p.source, p.target), (a, b))
    want = a == c and b == d
    holds(bool(p == q) == want, "equal iff both fields are equal", p == q, want)
    holds(bool(p != q) != want, "!= is the negation of ==", p != q, not want)
    eq(list(p), [a, b], "iterates over source, then target")
    s, t = p
    holds(s is a and t is b, "unpacks into source and target")
    for o in (None, 1, (a, b), [a, b], "ab"):
        holds(not (p == o), "not equal to a non-pair", o)
        holds(p != o, "different from a non-pair", o)
    eq(eval(repr(p)), p, "repr can be read back")
    holds(copy.copy(p) == p and copy.deepcopy(p) == p, "copies are equal")
    x = Pair(source=a)
    holds(x.source is a and x.target is None, "missing target is None")
    x = Pair(target=b)
    holds(x.target is b and x.source is None, "missing source is None")
    p.set(c, d)
    holds(p.source is c and p.target is d, "set replaces both fields", (p.source, p.target), (c, d))
    p.set(target=b)
    holds(p.source is None and p.target is b, "set resets what is not given")
    p.source = a
    eq(list(p), [a, b], "assigned field shows")


def gen(R):
    n = range(len(VALS))
    for c in itertools.product(n, n, n, n):
        yield c


GROUPS = [Group("pairs", gen, check, "all pairs of pairs over 10 values")]
