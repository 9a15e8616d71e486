"""n-grams, padding and skip bigrams"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun, slice_fn, concat_fn
from pyvc.spec import *
from pyvc.verify import Contract

A = arr_sort(ELEM)
Z = z3.IntSort()
PR = TUP(ELEM, ELEM)
PA = arr_sort(PR)


def str_of(c, name):
    """a pad string of one character (an element of a str sequence)"""
    return c.term(ELEM, name)


class Pad(Contract):
    target = "daeso.string.ngram.pad"
    props = ("C05",)
    cases = ("list", "tuple")

    def setup(self, c):
        s = c.seq("tokens", ELEM, c.case)
        self.A, self.n = c.eng.as_arr(c.st, s)
        self.k = c.int("pad_size", 0)
        self.p = c.term(ELEM, "pad_string")
        self.kind = c.case
        return [s, self.k, self.p]

    def spec(self, arr, n, A_, n0, k, p):
        i = z3.Int("pi")
        yield "length", n == n0 + 2 * k
        yield "tokens-between-the-padding", forall(i, z3.Implies(
            z3.And(0 <= i, i < n), arr[i] == z3.If(
                z3.And(k <= i, i < k + n0), A_[i - k], p)), [arr[i]])

    def post(self, c, st, ret):
        yield "same-type", z3.BoolVal(c.eng.kind_of(st, ret) == self.kind)
        arr, n = c.eng.as_arr(st, ret, ELEM)
        for x in self.spec(arr, n, self.A, self.n, self.k.t, self.p.t):
            yield x

    def apply(self, eng, st, env, e):
        t, k, p = [env[x] for x in ("tokens", "pad_size", "pad_string")]
        kind = eng.kind_of(st, t)
        if kind not in ("list", "tuple"):
            return None
        A_, n0 = eng.as_arr(st, t)
        st = st.copy()
        kt = eng.enc(st, k, INT)
        eng.oblige("pre:pad:size-not-negative", st, kt >= 0, e.line if e else None, "pre")
        arr, n = z3.Const(fresh_name("padded"), A), n0 + 2 * kt
        try:
            pt = eng.enc(st, p, ELEM)
        except Unsupported:
            return None
        for _, f in self.spec(arr, n, A_, n0, kt, pt):
            st.assume(f)
        if kind == "list":
            return [(st, eng.new_symlist(st, ELEM, arr, n))]
        return [(st, SeqV(ELEM, arr, n, kind))]


class NGrams(Contract):
    target = "daeso.string.ngram.n_gram_slices"
    props = ("C05",)
    cases = ("list", "tuple", "str-unpadded")

    def setup(self, c):
        self.kind = c.case.split("-")[0]
        s = c.seq("tokens", ELEM, self.kind)
        self.A, self.la = c.eng.as_arr(c.st, s)
        self.n = c.int("n", 1)
        if self.kind == "str":
            self.k, self.p = T(INT, z3.IntVal(0)), T(ELEM, z3.Const("pad_string", ELEM.sort))
            return [s, self.n]
        self.k = c.int("pad_size", 0)
        self.p = c.term(ELEM, "pad_string")
        return [s, self.n, self.k, self.p]

    def padded(self, i):
        k = self.k.t
        return z3.If(z3.And(k <= i, i < k + self.la), self.A[i - k], self.p.t)

    def post(self, c, st, ret):
        S = SEQ(ELEM, self.kind)
        arr, m = c.eng.as_arr(st, ret, S)
        i, q = z3.Ints("gi gq")
        total = self.la + 2 * self.k.t
        yield "one-per-start-position", m == zmax(0, total - self.n.t + 1)
        yield "length-n", forall(i, z3.Implies(z3.And(0 <= i, i < m), S.get(
            1, arr[i]) == self.n.t), [arr[i]])
        yield "consecutive-tokens", forall([i, q], z3.Implies(
            z3.And(0 <= i, i < m, 0 <= q, q < self.n.t),
            S.get(0, arr[i])[q] == self.padded(i + q)), [S.get(0, arr[i])[q]])


# skip bigrams of n tokens, at most d tokens skipped: position p of the list
# holds the tokens at ROW(p) and COL(p)
W = lambda n, d: zmin(d + 1, n - 1)
CNT = RecFn("SKCNT", [Z, Z, Z], lambda F, n, d: z3.If(n <= 0, 0, W(n, d) + F(n - 1, d)))
ROW = RecFn("SKROW", [Z, Z, Z, Z], lambda F, n, d, p: z3.If(z3.Or(
    n <= 0, p < W(n, d)), 0, 1 + F(n - 1, d, p - W(n, d))))
COL = RecFn("SKCOL", [Z, Z, Z, Z], lambda F, n, d, p: z3.If(z3.Or(
    n <= 0, p < W(n, d)), p + 1, 1 + F(n - 1, d, p - W(n, d))))
POS = RecFn("SKPOS", [Z, Z, Z, Z, Z], lambda F, n, d, i, j: z3.If(
    i <= 0, j - 1, W(n, d) + F(n - 1, d, i - 1, j - 1)))
SKB = Lemma("skip_bigram_positions", [Z, Z, Z],
            lambda n, d, p: z3.And(0 <= ROW(n, d, p), ROW(n, d, p) < COL(n, d, p),
                                   COL(n, d, p) < n,
                                   COL(n, d, p) - ROW(n, d, p) - 1 <= d,
                                   POS(n, d, ROW(n, d, p), COL(n, d, p)) == p),
            hyp=lambda n, d, p: z3.And(n >= 0, d >= 0, 0 <= p, p < CNT(n, d)),
            measure=lambda n, d, p: n,
            hints=lambda n, d, p: [(n - 1, d, p - W(n, d))],
            extra=lambda n, d, p: [
                POS(n - 1, d, ROW(n - 1, d, p - W(n, d)), COL(n - 1, d, p - W(n, d))) ==
                POS.f0(n - 1, d, ROW(n - 1, d, p - W(n, d)), COL(n - 1, d, p - W(n, d))),
                CNT(n - 1, d) == CNT.f0(n - 1, d)])
SKC = Lemma("every_skip_bigram_has_a_position", [Z, Z, Z, Z],
            lambda n, d, i, j: z3.And(
                0 <= POS(n, d, i, j), POS(n, d, i, j) < CNT(n, d),
                ROW(n, d, POS(n, d, i, j)) == i, COL(n, d, POS(n, d, i, j)) == j),
            hyp=lambda n, d, i, j: z3.And(d >= 0, 0 <= i, i < j, j < n, j - i - 1 <= d),
            measure=lambda n, d, i, j: n,
            hints=lambda n, d, i, j: [(n - 1, d, i - 1, j - 1)],
            extra=lambda n, d, i, j: [
                CNT0.inst(n - 1, d), CNT(n - 1, d) == CNT.f0(n - 1, d),
                ROW(n - 1, d, POS(n - 1, d, i - 1, j - 1)) ==
                ROW.f0(n - 1, d, POS(n - 1, d, i - 1, j - 1)),
                COL(n - 1, d, POS(n - 1, d, i - 1, j - 1)) ==
                COL.f0(n - 1, d, POS(n - 1, d, i - 1, j - 1))])
CNT0 = Lemma("skip_count_not_negative", [Z, Z], lambda n, d: CNT(n, d) >= 0,
             hyp=lambda n, d: z3.And(n >= 0, d >= 0), measure=lambda n, d: n,
             hints=lambda n, d: [(n - 1, d)],
             pats=lambda n, d: [CNT(n, d)])
LEMMAS = [CNT0, SKB, SKC]


def ska():
    """the list of skip bigrams as a function of tokens and limit"""
    f = fun("SKA", A, Z, Z, PA)

    def mk():
        a = z3.Const("a", A)
        n, d, p = z3.Ints("n d p")
        return [forall([a, n, d, p], f(a, n, d)[p] == PR.mk(
            a[ROW(n, d, p)], a[COL(n, d, p)]), [f(a, n, d)[p]])]
    CNT(z3.IntVal(0), z3.IntVal(0))
    ROW(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
    COL(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
    TH.add("SKA", mk)
    return f


class SkipBigrams(Contract):
    target = "daeso.string.sgram.skip_bigram_slices"
    props = ("C05",)
    cases = ("list", "tuple", "str")
    recursive = True

    def setup(self, c):
        s = c.seq("tokens", ELEM, c.case)
        self.A, self.n = c.eng.as_arr(c.st, s)
        self.d = c.int("distance_limit", 0)
        CNT(self.n, self.d.t)
        CNT0.use()
        return [s, self.d]

    def spec(self, arr, m, A_, n, d):
        p = z3.Int("sp")
        yield "count", m == CNT(n, d)
        yield "each-is-the-skip-bigram-of-its-position", forall(p, z3.Implies(
            z3.And(0 <= p, p < m), arr[p] == PR.mk(A_[ROW(n, d, p)], A_[COL(n, d, p)])), [arr[p]])

    def post(self, c, st, ret):
        arr, m = c.eng.as_arr(st, ret, PR)
        for x in self.spec(arr, m, self.A, self.n, self.d.t):
            yield x

    def apply(self, eng, st, env, e):
        t = env["tokens"]
        A_, n = eng.as_arr(st, t)
        st = st.copy()
        d = eng.enc(st, env["distance_limit"], INT)
        ln = e.line if e else None
        eng.oblige("pre:skip_bigram_slices:limit-not-negative", st, d >= 0, ln, "pre")
        if eng.cur is not None and eng.cur.target == self.target:
            eng.oblige("terminates:fewer-tokens", st, z3.And(n < eng.cur.n, n >= 0), ln, "variant")
        # entries beyond the length of the list are not observable, so the
        # contract determines the list
        arr, m = ska()(A_, n, d), CNT(n, d)
        CNT0.use()
        st.assume(m >= 0)
        return [(st, eng.new_symlist(st, PR, arr, m))]


class PaddedSkipBigrams(Contract):
    target = "daeso.string.sgram.padded_skip_bigram_slices"
    props = ("C05",)
    cases = ("list", "tuple")

    def setup(self, c):
        s = c.seq("tokens", ELEM, c.case)
        self.A, self.n = c.eng.as_arr(c.st, s)
        self.d = c.int("distance_limit", 0)
        self.p = c.term(ELEM, "pad_string")
        CNT(self.n, self.d.t)
        return [s, self.d, self.p]

    def post(self, c, st, ret):
        arr, m = c.eng.as_arr(st, ret, PR)
        n, d = self.n + 2, self.d.t
        p = z3.Int("sp")
        tok = lambda i: z3.If(z3.And(1 <= i, i <= self.n), self.A[i - 1], self.p.t)
        SKB.use()
        yield "count", m == CNT(n, d)
        yield "each-is-the-skip-bigram-of-its-position", forall(p, z3.Implies(
            z3.And(0 <= p, p < m, SKB.inst(n, d, p)),
            arr[p] == PR.mk(tok(ROW(n, d, p)), tok(COL(n, d, p)))), [arr[p]])


CONTRACTS = [Pad, NGrams, SkipBigrams, PaddedSkipBigrams]
