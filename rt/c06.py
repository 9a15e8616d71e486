# -*- coding: utf-8 -*-
from base import *
import math
from daeso.string import similar as S


def div(a, b):
    return float(a) / b if b else 0.0


def check(kind1, kind2, a, b):
    x = set(a) if kind1 == "set" else (dict.fromkeys(a, 1) if kind1 == "dict" else as_kind(a, kind1))
    y = set(b) if kind2 == "set" else (dict.fromkeys(b, 1) if kind2 == "dict" else as_kind(b, kind2))
    la, lb = len(x), len(y)
    i, u = len(set(a) & set(b)), len(set(a) | set(b))
    eq(S.type_match(x, y), i, "type match")
    eq(S.token_match(x, y), len([e for e in x if e in set(b)]), "token match")
    close(S.sym_token_match(x, y), (len([e for e in x if e in set(b)]) +
                                    len([e for e in y if e in set(a)])) / 2.0, "symmetric token match")
    for nm, v in (("cosine", div(i, math.sqrt(la * lb))), ("tanimoto", div(i, la + lb - i)),
                  ("dice", div(2 * i, la + lb)), ("jaccard", div(i, u)),
                  ("overlap_min", div(i, min(la, lb))), ("overlap_max", div(i, max(la, lb))),
                  ("overlap", div(i, min(la, lb)))):
        f = getattr(S, nm)
        r = f(x, y)
        close(r, v, nm)
        close(f(y, x), r, nm + " is symmetric")
        holds(-1e-9 <= r <= 1 + 1e-9, nm + " in [0, 1]", r)


def check_gen(kind, seqs):
    xs = [as_kind(s, kind) for s in seqs]
    if not xs:
        for f in (S.generalized_cosine, S.generalized_dice, S.generalized_jaccard):
            eq(f(xs), 0.0, f.__name__ + " of no sequences")
        return
    it, un = set(seqs[0]), set()
    prod, tot = 1, 0
    for s in seqs:
        it &= set(s)
        un |= set(s)
        prod *= len(s)
        tot += len(s)
    i = len(it)
    close(S.generalized_cosine(xs), div(i, math.sqrt(prod)), "generalized cosine")
    close(S.generalized_dice(xs), div(len(xs) * i, tot), "generalized dice")
    close(S.generalized_jaccard(xs), div(i, len(un)), "generalized jaccard")
    eq(xs, [as_kind(s, kind) for s in seqs], "sequences unchanged")


def gen(R):
    for a in words("ab", 3):
        for b in words("ab", 3):
            yield "list", "list", a, b
    for k1 in ("str", "tuple", "set", "dict"):
        for a in words("ab", 2):
            for b in words("ab", 2):
                yield k1, "list", a, b
    while True:
        k = ["str", "tuple", "list", "set", "dict"]
        yield (R.rng.choice(k), R.rng.choice(k), rand_word(R.rng, "abcdef", 10),
               rand_word(R.rng, "abcdef", 10))


def gen_gen(R):
    yield "list", []
    for a in words("ab", 2):
        yield "list", [a]
        for b in words("ab", 2):
            for c in words("ab", 1):
                yield "tuple", [a, b, c]
    while True:
        yield (R.rng.choice(["list", "str", "tuple"]),
               [rand_word(R.rng, "abcd", 6) for _ in range(R.rng.randint(0, 5))])


GROUPS = [Group("pairwise", gen, check, "all pairs over 2 letters up to 3, then random up to 10"),
          Group("generalized", gen_gen, check_gen, "up to 5 sequences", 0.6)]
