"""set-based similarity coefficients"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun, elems_fn, card_fn, inter_fn, union_fn, SQRT
from pyvc.spec import *
from pyvc.verify import Contract

A = arr_sort(ELEM)
Z = z3.IntSort()
R_ = z3.ToReal


def quot(a, b):
    """a/b, 0.0 for a zero denominator"""
    return z3.If(b == 0, z3.RealVal(0), a / b)


class Coefficient(Contract):
    props = ("C06",)
    cases = ("list", "str", "tuple", "list-tuple")
    numeric = REAL

    def setup(self, c):
        k = c.case.split("-")
        s1 = c.seq("seq1", ELEM, k[0])
        s2 = c.seq("seq2", ELEM, k[-1])
        A_, la = c.eng.as_arr(c.st, s1)
        B_, lb = c.eng.as_arr(c.st, s2)
        self.A, self.B, self.la, self.lb = A_, B_, la, lb
        x, y = elems_fn(ELEM)(A_, la), elems_fn(ELEM)(B_, lb)
        self.X, self.Y = x, y
        self.i = card_fn(ELEM)(inter_fn(ELEM)(x, y))
        self.u = card_fn(ELEM)(union_fn(ELEM)(x, y))
        return [s1, s2]

    def value(self):
        raise NotImplementedError

    def post(self, c, st, ret):
        r = c.eng.enc(st, ret, self.numeric)
        yield "is-the-coefficient", r == self.value()
        if self.numeric == REAL:
            cd = card_fn(ELEM)
            yield "between-0-and-1", z3.Implies(z3.And(
                keep(cd(self.X)), keep(cd(self.Y))), z3.And(r >= 0, r <= 1))


class TypeMatch(Coefficient):
    target = "daeso.string.similar.type_match"
    numeric = INT

    def value(self):
        return self.i


class Cosine(Coefficient):
    target = "daeso.string.similar.cosine"

    def value(self):
        return quot(R_(self.i), SQRT(R_(self.la * self.lb)))


class Tanimoto(Coefficient):
    target = "daeso.string.similar.tanimoto"

    def value(self):
        return quot(R_(self.i), R_(self.la + self.lb - self.i))


class Dice(Coefficient):
    target = "daeso.string.similar.dice"

    def value(self):
        return quot(R_(2 * self.i), R_(self.la + self.lb))


class Jaccard(Coefficient):
    target = "daeso.string.similar.jaccard"

    def value(self):
        return quot(R_(self.i), R_(self.u))


class OverlapMin(Coefficient):
    target = "daeso.string.similar.overlap_min"

    def value(self):
        return quot(R_(self.i), R_(zmin(self.la, self.lb)))


class OverlapMax(Coefficient):
    target = "daeso.string.similar.overlap_max"

    def value(self):
        return quot(R_(self.i), R_(zmax(self.la, self.lb)))


# number of entries of a[:k] that occur in b[:n]
OCC = RecFn("OCC", [A, Z, A, Z, Z], lambda F, a, k, b, n: z3.If(
    k <= 0, 0, F(a, k - 1, b, n) + z3.If(elems_fn(ELEM)(b, n)[a[k - 1]], 1, 0)))
OCCB = Lemma("occurrences_bounded", [A, Z, A, Z],
             lambda a, k, b, n: z3.And(0 <= OCC(a, k, b, n), OCC(a, k, b, n) <= k),
             hyp=lambda a, k, b, n: k >= 0, measure=lambda a, k, b, n: k,
             hints=lambda a, k, b, n: [(a, k - 1, b, n)])


class TokenMatch(Coefficient):
    target = "daeso.string.similar.token_match"
    numeric = INT

    def counts(self, eng, st):
        for lab, (a, la), (b, lb) in (("12", (self.A, self.la), (self.B, self.lb)),
                                      ("21", (self.B, self.lb), (self.A, self.la))):
            yield lab, lambda k, a=a, b=b, lb=lb: OCC(a, k, b, lb)

    def inv(self, L):
        for n in int_vars(L):
            for lab, F in self.counts(None, None):
                yield "counted%s[%s]" % (lab, n), lambda V, n=n, F=F: V.t(n) == F(V.k)

    def value(self):
        return OCC(self.A, self.la, self.B, self.lb)


class SymTokenMatch(TokenMatch):
    target = "daeso.string.similar.sym_token_match"
    numeric = REAL

    def post(self, c, st, ret):
        yield "mean-of-both-directions", c.eng.enc(st, ret, REAL) == (
            R_(OCC(self.A, self.la, self.B, self.lb)) +
            R_(OCC(self.B, self.lb, self.A, self.la))) / 2


# ---- more than two sequences -------------------------------------------------
SQ = SEQ(ELEM, "tuple")
AS = arr_sort(SQ)
ES = SET(ELEM).sort
_el = lambda s: elems_fn(ELEM)(SQ.get(0, s), SQ.get(1, s))
GINT = RecFn("GINT", [AS, Z, ES], lambda F, a, k: z3.If(
    k <= 1, _el(a[0]), inter_fn(ELEM)(F(a, k - 1), _el(a[k - 1]))))
GUNI = RecFn("GUNI", [AS, Z, ES], lambda F, a, k: z3.If(
    k <= 1, _el(a[0]), union_fn(ELEM)(F(a, k - 1), _el(a[k - 1]))))
GLEN = RecFn("GLEN", [AS, Z, Z], lambda F, a, k: z3.If(
    k <= 1, SQ.get(1, a[0]), F(a, k - 1) + SQ.get(1, a[k - 1])))
GPRO = RecFn("GPRO", [AS, Z, Z], lambda F, a, k: z3.If(
    k <= 1, SQ.get(1, a[0]), F(a, k - 1) * SQ.get(1, a[k - 1])))


class Generalized(Contract):
    props = ("C06",)
    cases = ("list", "tuple")

    def setup(self, c):
        s = c.seq("sequences", SQ, c.case)
        self.A, self.n = c.eng.as_arr(c.st, s)
        q = z3.Int("gq")
        c.assume(forall(q, SQ.get(1, self.A[q]) >= 0, [self.A[q]]))
        GINT(self.A, self.n), GUNI(self.A, self.n), GLEN(self.A, self.n), GPRO(self.A, self.n)
        return [s]

    def inv(self, L):
        for n in changed_sets(L, ELEM):
            for d in (0, 1):
                yield "intersection%d[%s]" % (d, n), lambda V, n=n, d=d: V.set(
                    n, ELEM) == GINT(self.A, V.k + d)
                yield "union%d[%s]" % (d, n), lambda V, n=n, d=d: V.set(
                    n, ELEM) == GUNI(self.A, V.k + d)
        for n in int_vars(L):
            for d in (0, 1):
                yield "total%d[%s]" % (d, n), lambda V, n=n, d=d: V.t(n) == GLEN(self.A, V.k + d)
                yield "product%d[%s]" % (d, n), lambda V, n=n, d=d: V.t(n) == GPRO(
                    self.A, V.k + d)

    def post(self, c, st, ret):
        yield "is-the-coefficient", c.eng.enc(st, ret, REAL) == z3.If(
            self.n == 0, z3.RealVal(0), self.value(card_fn(ELEM)(GINT(self.A, self.n))))


GPOS = Lemma("product_not_negative", [AS, Z], lambda a, k: GPRO(a, k) >= 0,
             hyp=lambda a, k: z3.And(k >= 0, forall(
                 z3.Int("gq"), SQ.get(1, a[z3.Int("gq")]) >= 0, [a[z3.Int("gq")]])),
             measure=lambda a, k: k, hints=lambda a, k: [(a, k - 1)],
             pats=lambda a, k: [GPRO(a, k)])


class GenCosine(Generalized):
    target = "daeso.string.similar.generalized_cosine"

    def setup(self, c):
        r = Generalized.setup(self, c)
        GPOS.use()
        return r

    def value(self, i):
        return quot(R_(i), SQRT(R_(GPRO(self.A, self.n))))


class GenDice(Generalized):
    target = "daeso.string.similar.generalized_dice"

    def value(self, i):
        return quot(R_(self.n * i), R_(GLEN(self.A, self.n)))


class GenJaccard(Generalized):
    target = "daeso.string.similar.generalized_jaccard"

    def value(self, i):
        return quot(R_(i), R_(card_fn(ELEM)(GUNI(self.A, self.n))))


CONTRACTS = [TypeMatch, Cosine, Tanimoto, Dice, Jaccard, OverlapMin, OverlapMax, TokenMatch,
             SymTokenMatch, GenCosine, GenDice, GenJaccard]
LEMMAS = [OCCB, GPOS]
