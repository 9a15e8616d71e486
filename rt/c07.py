# -*- coding: utf-8 -*-
from base import *
from daeso.string import rouge as G
from c05 import grams, skips


def f_score(p, r, beta):
    n = beta ** 2 * p + r
    return (1 + beta ** 2) * p * r / n if n else 0


def lcs(a, b):
    D = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(1, len(a) + 1):
        for j in range(1, len(b) + 1):
            D[i][j] = D[i-1][j-1] + 1 if a[i-1] == b[j-1] else max(D[i-1][j], D[i][j-1])
    return D[len(a)][len(b)]


def check_n(kind, cand, refs, n):
    c, rs = as_kind(cand, kind), [as_kind(r, kind) for r in refs]
    cg = grams(tuple(cand), n)
    rg = [g for r in refs for g in grams(tuple(r), n)]
    m = len([g for g in cg if g in rg])
    close(G.rouge_n(c, rs, n), float(m) / len(rg) if rg else 0.0, "ROUGE-N")
    eq(G.count_match(cg, rg), m, "matching n-grams")
    close(G.rouge_ngram(cg, rg), float(m) / len(rg) if rg else 0.0, "ROUGE-N on n-grams")
    eq(rs, [as_kind(r, kind) for r in refs], "references unchanged")


def check_l(kind, a, b, beta):
    x, y = as_kind(a, kind), as_kind(b, kind)
    l = lcs(a, b)
    exp = f_score(float(l) / len(a), float(l) / len(b), beta) if a and b else 0
    r = G.rouge_l(x, y, beta)
    close(r, exp, "ROUGE-L")
    holds(0 <= r <= 1 + 1e-9, "ROUGE-L in [0, 1]", r)
    if beta == 1:
        close(G.rouge_l(x, y), exp, "ROUGE-L, default beta")


def s_score(sa, sb, beta):
    m = len(set(sa) & set(sb))
    return f_score(float(m) / len(sb), float(m) / len(sa), beta) if sa and sb else 0


def check_s(a, b, d, beta):
    a, b = tuple(a), tuple(b)
    args = (a, b) + (() if d is None else (d,))
    kw = {} if beta == 1 else {"beta": beta}
    close(G.rouge_s(*args, **kw), s_score(skips(a, d), skips(b, d), beta), "ROUGE-S")
    close(G.rouge_skip_bigram(skips(a, d), skips(b, d), beta),
          s_score(skips(a, d), skips(b, d), beta), "ROUGE-S on skip bigrams")
    a2, b2 = ("_",) + a, ("_",) + b
    close(G.rouge_su(*args, **kw), s_score(skips(a2, d), skips(b2, d), beta), "ROUGE-SU")
    a2, b2 = ("<s>",) + a, ("<s>",) + b
    kw["marker"] = "<s>"
    close(G.rouge_su(*args, **kw), s_score(skips(a2, d), skips(b2, d), beta), "ROUGE-SU, marker")


def gen_n(R):
    for a in words("ab", 3):
        for b in words("ab", 2):
            for n in (1, 2):
                yield "list", a, [b, ["a", "b"]], n
    while True:
        rng = R.rng
        yield (rng.choice(["list", "tuple"]), rand_word(rng, "abc", 8),
               [rand_word(rng, "abc", 8) for _ in range(rng.randint(0, 3))], rng.randint(1, 4))


def gen_l(R):
    for a in words("ab", 3):
        for b in words("ab", 3):
            for beta in (1, 2):
                yield "list", a, b, beta
    while True:
        yield (R.rng.choice(["list", "tuple"]), rand_word(R.rng, "abcd", 9), rand_word(R.rng, "abcd", 9),
               R.rng.choice([1, 2, 0.5, 8]))


def gen_s(R):
    for a in words("ab", 3):
        for b in words("ab", 3):
            for d in (None, 0, 1):
                yield a, b, d, 1
    while True:
        yield (rand_word(R.rng, "abcd", 8), rand_word(R.rng, "abcd", 8),
               R.rng.choice([None, 0, 1, 2, 4]), R.rng.choice([1, 2, 0.5, 8]))


GROUPS = [Group("rouge-n", gen_n, check_n, "words over 2 letters, then random with up to 3 references"),
          Group("rouge-l", gen_l, check_l, "all pairs over 2 letters up to 3, then random up to 9"),
          Group("rouge-s-su", gen_s, check_s, "all pairs over 2 letters up to 3, then random up to 8")]
