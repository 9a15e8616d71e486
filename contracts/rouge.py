"""ROUGE scores"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun, elems_fn, card_fn, inter_fn
from pyvc.spec import *
from pyvc.verify import Contract
from .similar import OCC, OCCB, A, Z, R_
from .lcs import LCSL, BND
from .ngram import PR, PA, CNT, CNT0, ska

USES = ["lcs", "ngram"]
LEMMAS = [OCCB]
Rl = z3.RealSort()


def fscore(p, r, beta):
    n = beta * beta * p + r
    return z3.If(n == 0, z3.RealVal(0), (1 + beta * beta) * p * r / n)


class CountMatch(Contract):
    target = "daeso.string.rouge.count_match"
    props = ("C07",)
    cases = ("list", "tuple")

    def setup(self, c):
        s1 = c.seq("candidate", ELEM, c.case)
        s2 = c.seq("references", ELEM, c.case)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        OCC(self.A, self.la, self.B, self.lb)
        return [s1, s2]

    def counts(self, eng, st):
        yield "matching", lambda k: OCC(self.A, k, self.B, self.lb)

    def inv(self, L):
        for n in int_vars(L):
            yield "counted[%s]" % n, lambda V, n=n: V.t(n) == OCC(self.A, V.k, self.B, self.lb)

    def post(self, c, st, ret):
        yield "counts-matching-ngrams", c.eng.enc(st, ret, INT) == OCC(
            self.A, self.la, self.B, self.lb)


class RougeNgram(CountMatch):
    target = "daeso.string.rouge.rouge_ngram"

    def post(self, c, st, ret):
        yield "recall-of-ngrams", c.eng.enc(st, ret, REAL) == z3.If(
            self.lb == 0, z3.RealVal(0), R_(OCC(self.A, self.la, self.B, self.lb)) / R_(self.lb))


class RougeL(Contract):
    target = "daeso.string.rouge.rouge_l"
    props = ("C07",)
    cases = ("list", "tuple", "default-beta")

    def setup(self, c):
        k = "list" if c.case == "default-beta" else c.case
        s1 = c.seq("candidate", ELEM, k)
        s2 = c.seq("reference", ELEM, k)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        if c.case == "default-beta":
            self.beta = z3.RealVal(1)
            return [s1, s2]
        b = c.real("beta")
        self.beta = b.t
        return [s1, s2, b]

    def post(self, c, st, ret):
        l = R_(LCSL(self.A, self.B, self.la, self.lb))
        r = c.eng.enc(st, ret, REAL)
        yield "f-measure-of-the-lcs", r == z3.If(
            z3.Or(self.la == 0, self.lb == 0), z3.RealVal(0),
            fscore(l / R_(self.la), l / R_(self.lb), self.beta))


def sscore(x, n, y, m, beta):
    i = R_(card_fn(PR)(inter_fn(PR)(elems_fn(PR)(x, n), elems_fn(PR)(y, m))))
    return z3.If(z3.Or(n == 0, m == 0), z3.RealVal(0), fscore(i / R_(m), i / R_(n), beta))


class RougeSkip(Contract):
    target = "daeso.string.rouge.rouge_skip_bigram"
    props = ("C07",)
    cases = ("list",)

    def setup(self, c):
        s1 = c.seq("bigrams1", PR)
        s2 = c.seq("bigrams2", PR)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        b = c.real("beta")
        self.beta = b.t
        return [s1, s2, b]

    def post(self, c, st, ret):
        yield "f-measure-of-common-skip-bigrams", c.eng.enc(st, ret, REAL) == sscore(
            self.A, self.la, self.B, self.lb, self.beta)


class RougeS(Contract):
    target = "daeso.string.rouge.rouge_s"
    props = ("C07",)
    cases = ("list", "tuple")
    extra = 0

    def setup(self, c):
        s1 = c.seq("tokens1", ELEM, c.case)
        s2 = c.seq("tokens2", ELEM, c.case)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        self.d = c.int("distance_limit", 0)
        b = c.real("beta")
        self.beta = b.t
        return self.args(c, s1, s2, b)

    def args(self, c, s1, s2, b):
        return [s1, s2, self.d, b]

    def post(self, c, st, ret):
        d = self.d.t
        f = ska()
        yield "f-measure-of-common-skip-bigrams", c.eng.enc(st, ret, REAL) == sscore(
            f(self.A, self.la, d), CNT(self.la, d), f(self.B, self.lb, d), CNT(self.lb, d),
            self.beta)


CONTRACTS = [CountMatch, RougeNgram, RougeL, RougeSkip, RougeS]
