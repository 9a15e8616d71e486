import math
from base import *
from daeso.string.lcs import lcs, longest_common_subsequence, normalized_lcs


def lcslen(a, b):
    D = {}
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if i == 0 or j == 0:
                D[i, j] = 0
            elif a[i-1] == b[j-1]:
                D[i, j] = D[i-1, j-1] + 1
            else:
                D[i, j] = max(D[i-1, j], D[i, j-1])
    return D[len(a), len(b)]


def subseq(s, a):
    p = 0
    for x in s:
        while p < len(a) and a[p] != x:
            p += 1
        if p == len(a):
            return False
        p += 1
    return True


def check(k1, k2, a, b):
    x, y = as_kind(a, k1), as_kind(b, k2)
    r = longest_common_subsequence(x, y)
    n = lcslen(a, b)
    want = {"str": str, "tuple": tuple}.get(k1, list) if k1 == k2 else list
    holds(type(r) is want, "result type", type(r), want)
    eq(len(r), n, "maximal length")
    holds(subseq(r, x), "subsequence of the first sequence", r, x)
    holds(subseq(r, y), "subsequence of the second sequence", r, y)
    eq(x, as_kind(a, k1), "first argument unchanged")
    eq(y, as_kind(b, k2), "second argument unchanged")
    eq(lcs(x, y), r, "short name")
    close(normalized_lcs(x, y), n / math.sqrt(len(a) * len(b)) if a and b else 0.0,
          "normalised length")


def gen(R):
    for k in ("list", "str"):
        for a in words("ab", R.pick(4, 5)):
            for b in words("ab", R.pick(4, 5)):
                yield k, k, a, b
    while True:
        k = R.rng.choice(["str", "tuple", "list", "unicode"])
        yield (k, R.rng.choice([k, k, "list"]), rand_word(R.rng, "abcde"[:R.rng.randint(1, 5)], 12),
               rand_word(R.rng, "abcde"[:R.rng.randint(1, 5)], 12))


GROUPS = [Group("lcs", gen, check,
                "all pairs over 2 letters up to length 4 (5), then random pairs up to length 12")]
