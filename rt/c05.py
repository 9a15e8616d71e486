# -*- coding: utf-8 -*-
from base import *
from daeso.string.ngram import n_gram_slices, n_gram_strings, n_gram_slices_range, pad
from daeso.string.sgram import skip_bigram_slices, padded_skip_bigram_slices


def padded(w, kind, size, ps):
    x = as_kind(w, kind)
    if kind == "tuple":
        return (ps,) * size + x + (ps,) * size
    if kind == "str":
        return ps * size + x + ps * size
    return [ps] * size + x + [ps] * size


def grams(p, n):
    return [p[i:i+n] for i in range(0, max(0, len(p) - n + 1))]


def check_n(kind, w, n, size, ps, sep):
    x = as_kind(w, kind)
    p = padded(w, kind, size, ps)
    eq(pad(x, size, ps), p, "pad")
    eq(n_gram_slices(x, n, size, ps), grams(p, n), "n-gram slices")
    eq(n_gram_strings(x, n, size, ps, sep), [sep.join(g) for g in grams(p, n)], "n-gram strings")
    if size == 0:
        eq(n_gram_slices(x, n), grams(x, n), "n-grams without padding")
        eq(n_gram_strings(x, n), [" ".join(g) for g in grams(x, n)], "n-gram strings defaults")
    if size == 1:
        eq(pad(x, 1), padded(w, kind, 1, "_"), "default pad string")
        eq(n_gram_slices(x, n, 1), grams(padded(w, kind, 1, "_"), n), "default pad string")
    eq(x, as_kind(w, kind), "tokens unchanged")


def check_range(kind, w, ns, padit, sizes, ps):
    x = as_kind(w, kind)
    r = n_gram_slices_range(x, ns, padit, sizes, ps)
    exp = {}
    for k, n in enumerate(ns):
        size = 0 if not padit else (sizes[k] if sizes else n - 1)
        exp[n] = grams(padded(w, kind, size, ps), n)
    eq(r, exp, "n-gram range")


def skips(p, d):
    return [(p[i], p[j]) for i in range(len(p)) for j in range(i + 1, len(p))
            if d is None or j - i - 1 <= d]


def check_s(kind, w, d, ps):
    x = as_kind(w, kind)
    a = () if d is None else (d,)
    eq(skip_bigram_slices(x, *a), skips(x, d), "skip bigrams")
    eq(x, as_kind(w, kind), "tokens unchanged")
    if d is not None:
        eq(padded_skip_bigram_slices(x, d, ps), skips(padded(w, kind, 1, ps), d),
           "padded skip bigrams")
        eq(padded_skip_bigram_slices(x, d), skips(padded(w, kind, 1, "_"), d),
           "padded skip bigrams, default padding")
    else:
        eq(padded_skip_bigram_slices(x), skips(padded(w, kind, 1, "_"), None),
           "padded skip bigrams, defaults")


def gen_n(R):
    for kind in ("list", "tuple", "str"):
        for w in words("ab", 3):
            for n in range(1, 6):
                for size in range(0, 3):
                    yield kind, w, n, size, "_", " "
    while True:
        rng = R.rng
        kind = rng.choice(["list", "tuple", "str"])
        ps = "#" if kind == "str" else rng.choice(["_", "<s>", ""])
        yield (kind, rand_word(rng, "abc", 10), rng.randint(1, 12), rng.randint(0, 4), ps,
               rng.choice([" ", "", "--"]))


def gen_r(R):
    rng = R.rng
    for kind in ("list", "tuple", "str"):
        for w in words("ab", 2):
            yield kind, w, [1, 2, 3], True, None, "_"
            yield kind, w, [2, 1], False, None, "_"
    while True:
        ns = rng.sample(range(1, 6), rng.randint(1, 4))
        sizes = rng.choice([None, [rng.randint(0, 3) for _ in ns]])
        yield (rng.choice(["list", "tuple", "str"]), rand_word(rng, "abc", 7), ns,
               rng.random() < 0.7, sizes, "_")


def gen_s(R):
    for kind in ("list", "tuple", "str"):
        for w in words("ab", 4):
            for d in (None, 0, 1, 2, 3, 7):
                yield kind, w, d, "_"
    while True:
        rng = R.rng
        yield (rng.choice(["list", "tuple", "str"]), rand_word(rng, "abcd", 12),
               rng.choice([None] + list(range(0, 12))), rng.choice(["_", "#"]))


GROUPS = [
    Group("n-grams", gen_n, check_n, "all words over 2 letters up to 3, n 1..5, padding 0..2; then random"),
    Group("n-gram-ranges", gen_r, check_range, "random n ranges up to 4 sizes", 0.5),
    Group("skip-bigrams", gen_s, check_s, "all words over 2 letters up to 4 and limits; then random up to 12"),
]
