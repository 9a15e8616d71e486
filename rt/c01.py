from base import *
from daeso.string.levenshtein import levenshtein, normalized_levenshtein


def dist(a, b):
    D = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if i == 0 or j == 0:
                D[i][j] = i + j
            else:
                D[i][j] = min(D[i-1][j] + 1, D[i][j-1] + 1,
                              D[i-1][j-1] + (a[i-1] != b[j-1]))
    return D[len(a)][len(b)]


def check(k1, k2, a, b):
    x, y = as_kind(a, k1), as_kind(b, k2)
    x0, y0 = as_kind(a, k1), as_kind(b, k2)
    d = levenshtein(x, y)
    eq(d, dist(a, b), "edit distance")
    eq(x, x0, "first argument unchanged")
    eq(y, y0, "second argument unchanged")
    eq(levenshtein(y, x), d, "symmetry")
    m = max(len(a), len(b))
    close(normalized_levenshtein(x, y), float(d) / m if m else 0.0, "normalised distance")


def gen(R):
    for a in words("ab", R.pick(4, 5)):
        for b in words("ab", R.pick(4, 5)):
            yield "list", "list", a, b
    for k in ("str", "tuple", "unicode"):
        for a in words("abc", 2):
            for b in words("abc", 3):
                yield k, k, a, b
                yield k, k, b, a
    while True:
        k = R.rng.choice(["str", "tuple", "list", "unicode"])
        yield (k, R.rng.choice([k, "list"]), rand_word(R.rng, "abcde"[:R.rng.randint(1, 5)], 14),
               rand_word(R.rng, "abcde"[:R.rng.randint(1, 5)], 14))


GROUPS = [Group("edit-distance", gen, check,
                "all pairs over 2 letters up to length 4 (5), then random pairs up to length 14")]
