"""Global and local alignment (Needleman-Wunsch, Smith-Waterman)"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun, insert_fn
from pyvc.spec import *
from pyvc.verify import Contract

A = arr_sort(ELEM)
Z = z3.IntSort()
Rl = z3.RealSort()
B = z3.BoolSort()
PAIR = TUP(INT, INT)
AL = arr_sort(PAIR)
CELL = TUP(REAL, STR)
ICELL = TUP(INT, STR)

SIM = fun("simscore", ELEM.sort, ELEM.sort, Rl)
GAP = fun("gapcost", ELEM.sort, Rl)


def X_(p):
    return PAIR.get(0, p)


def Y_(p):
    return PAIR.get(1, p)


# summed gap costs of a[:i]
GP = RecFn("GP", [A, Z, Rl], lambda F, a, i: z3.If(i <= 0, z3.RealVal(0),
                                                   F(a, i - 1) + GAP(a[i - 1])))
NWS = RecFn("NWS", [A, A, Z, Z, Rl], lambda F, a, b, i, j: z3.If(
    z3.And(i <= 0, j <= 0), z3.RealVal(0), z3.If(
        j <= 0, F(a, b, i - 1, j) + GAP(a[i - 1]), z3.If(
            i <= 0, F(a, b, i, j - 1) + GAP(b[j - 1]), zmax(
                F(a, b, i - 1, j) + GAP(a[i - 1]),
                F(a, b, i - 1, j - 1) + SIM(a[i - 1], b[j - 1]),
                F(a, b, i, j - 1) + GAP(b[j - 1]))))))
SWS = RecFn("SWS", [A, A, Z, Z, Rl], lambda F, a, b, i, j: z3.If(
    z3.Or(i <= 0, j <= 0), z3.RealVal(0), zmax(
        F(a, b, i - 1, j) + GAP(a[i - 1]),
        F(a, b, i - 1, j - 1) + SIM(a[i - 1], b[j - 1]),
        F(a, b, i, j - 1) + GAP(b[j - 1]), z3.RealVal(0))))

# score of the pairs al[q:n] as an alignment of a[i:ie] with b[j:je]
ALS = RecFn("ALS", [A, A, AL, Z, Z, Z, Z, Z, Z, Rl],
            lambda F, a, b, al, q, n, i, j, ie, je: z3.If(
                q < n,
                GP(a, X_(al[q])) - GP(a, i) + GP(b, Y_(al[q])) - GP(b, j) +
                SIM(a[X_(al[q])], b[Y_(al[q])]) +
                F(a, b, al, q + 1, n, X_(al[q]) + 1, Y_(al[q]) + 1, ie, je),
                GP(a, ie) - GP(a, i) + GP(b, je) - GP(b, j)))
# score of al[:n] as an alignment of a[:i] with b[:j]
PAL = RecFn("PAL", [A, A, AL, Z, Z, Z, Rl],
            lambda F, a, b, al, n, i, j: z3.If(
                n <= 0, GP(a, i) + GP(b, j),
                F(a, b, al, n - 1, X_(al[n - 1]), Y_(al[n - 1])) +
                SIM(a[X_(al[n - 1])], b[Y_(al[n - 1])]) +
                GP(a, i) - GP(a, X_(al[n - 1]) + 1) + GP(b, j) - GP(b, Y_(al[n - 1]) + 1)))


def sorted_pairs(al, n, i, j, ie, je):
    """al[:n] pairs positions of a[i:ie] and b[j:je], strictly increasing"""
    q = z3.Int("sq")
    r = z3.Int("sr")
    return z3.And(
        forall(q, z3.Implies(z3.And(0 <= q, q < n), z3.And(
            i <= X_(al[q]), X_(al[q]) < ie, j <= Y_(al[q]), Y_(al[q]) < je)), [al[q]]),
        forall([q, r], z3.Implies(z3.And(0 <= q, q < r, r < n), z3.And(
            X_(al[q]) < X_(al[r]), Y_(al[q]) < Y_(al[r]))), [z3.MultiPattern(al[q], al[r])]))


def shifted(a2, a1):
    t = z3.Int("sh")
    return forall(t, z3.Implies(t >= 0, a2[t + 1] == a1[t]), [a1[t]])


def shifted_b(a2, a1):
    t = z3.Int("sh")
    return forall(t, z3.Implies(t >= 1, a2[t] == a1[t - 1]), [a2[t]])


SHIFT = Lemma("als_shift", [A, A, AL, AL, Z, Z, Z, Z, Z, Z],
              lambda a, b, a2, a1, q, n, i, j, ie, je:
              ALS(a, b, a2, q + 1, n + 1, i, j, ie, je) == ALS(a, b, a1, q, n, i, j, ie, je),
              hyp=lambda a, b, a2, a1, q, n, i, j, ie, je: z3.And(
                  q >= 0, forall(z3.Int("sh"), z3.Implies(
                      z3.And(z3.Int("sh") >= 0, z3.Int("sh") < n),
                      a2[z3.Int("sh") + 1] == a1[z3.Int("sh")]), [a1[z3.Int("sh")]])),
              measure=lambda a, b, a2, a1, q, n, i, j, ie, je: zmax(n - q, 0),
              hints=lambda a, b, a2, a1, q, n, i, j, ie, je: [
                  (a, b, a2, a1, q + 1, n, X_(a1[q]) + 1, Y_(a1[q]) + 1, ie, je)])

INS = insert_fn(PAIR)
PUSH = Lemma("als_push_front", [A, A, AL, PAIR.sort, Z, Z, Z, Z, Z],
             lambda a, b, al, p, n, i, j, ie, je:
             ALS(a, b, INS(al, 0, p), 1, n, i, j, ie, je) ==
             ALS(a, b, al, 0, n - 1, i, j, ie, je),
             lim=lambda a, b, al, p, n, i, j, ie, je:
             ALS.f0(a, b, INS(al, 0, p), 1, n, i, j, ie, je) ==
             ALS(a, b, al, 0, n - 1, i, j, ie, je),
             pats=lambda a, b, al, p, n, i, j, ie, je: [
                 ALS.f0(a, b, INS(al, 0, p), 1, n, i, j, ie, je)],
             extra=lambda a, b, al, p, n, i, j, ie, je: [
                 SHIFT.inst(a, b, INS(al, 0, p), al, z3.IntVal(0), n - 1, i, j, ie, je)])
# PAL over al[:n] is the same as ALS from the start
CONN = Lemma("als_is_pal", [A, A, AL, Z, Z, Z, Z],
             lambda a, b, al, q, n, ie, je: z3.If(
                 q <= 0, ALS(a, b, al, 0, n, 0, 0, ie, je) ==
                 PAL(a, b, al, 0, 0, 0) + ALS(a, b, al, 0, n, 0, 0, ie, je),
                 ALS(a, b, al, 0, n, 0, 0, ie, je) ==
                 PAL(a, b, al, q, X_(al[q - 1]) + 1, Y_(al[q - 1]) + 1) +
                 ALS(a, b, al, q, n, X_(al[q - 1]) + 1, Y_(al[q - 1]) + 1, ie, je)),
             hyp=lambda a, b, al, q, n, ie, je: z3.And(q >= 0, q <= n),
             measure=lambda a, b, al, q, n, ie, je: q,
             hints=lambda a, b, al, q, n, ie, je: [(a, b, al, q - 1, n, ie, je)],
             extra=lambda a, b, al, q, n, ie, je: [
                 ALS(a, b, al, q - 1, n, X_(al[q - 2]) + 1, Y_(al[q - 2]) + 1, ie, je) ==
                 ALS.f0(a, b, al, q - 1, n, X_(al[q - 2]) + 1, Y_(al[q - 2]) + 1, ie, je),
                 PAL(a, b, al, q - 1, X_(al[q - 2]) + 1, Y_(al[q - 2]) + 1) ==
                 PAL.f0(a, b, al, q - 1, X_(al[q - 2]) + 1, Y_(al[q - 2]) + 1),
                 PAL(a, b, al, q - 1, X_(al[q - 1]), Y_(al[q - 1])) ==
                 PAL.f0(a, b, al, q - 1, X_(al[q - 1]), Y_(al[q - 1])),
                 GP(a, 0) == 0, GP(b, 0) == 0])

# no alignment scores better than the table
OPT = Lemma("nw_optimal", [A, A, AL, Z, Z, Z],
            lambda a, b, al, n, i, j: PAL(a, b, al, n, i, j) <= NWS(a, b, i, j),
            hyp=lambda a, b, al, n, i, j: z3.And(n >= 0, i >= 0, j >= 0,
                                                 sorted_pairs(al, n, 0, 0, i, j)),
            measure=lambda a, b, al, n, i, j: i + j,
            hints=lambda a, b, al, n, i, j: [(a, b, al, n, i - 1, j), (a, b, al, n, i, j - 1),
                                             (a, b, al, n - 1, i - 1, j - 1)],
            extra=lambda a, b, al, n, i, j: [
                al[n - 1] == al[n - 1],
                GP(a, i) == GP.f0(a, i), GP(b, j) == GP.f0(b, j),
                GP(a, i - 1) == GP.f0(a, i - 1), GP(b, j - 1) == GP.f0(b, j - 1)])
LEMMAS = [SHIFT, PUSH, CONN, OPT]


class NW(Contract):
    target = "daeso.string.needleman_wunsch.needleman_wunsch"
    props = ("C03",)
    cases = ("list", "str", "tuple")
    local = False
    S = NWS

    def setup(self, c):
        s1 = c.seq("s1", ELEM, c.case)
        s2 = c.seq("s2", ELEM, c.case)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        sim = UFn("sim_score", lambda eng, st, args: [(st, T(REAL, SIM(
            eng.enc(st, args[0], ELEM), eng.enc(st, args[1], ELEM))))])
        gap = UFn("gap_cost", lambda eng, st, args: [(st, T(REAL, GAP(
            eng.enc(st, args[0], ELEM))))])
        self.S(self.A, self.B, self.la, self.lb)
        GP(self.A, self.la)
        PUSH.use()
        return [s1, s2, sim, gap]

    def cell(self, tb, V, i, j):
        A_, B_ = self.A, self.B
        c = tb.get(V, i, j)
        sc, d = tb.vty.get(0, c), tb.vty.get(1, c)
        if tb.vty == ICELL:
            sc = z3.ToReal(sc)
        S = lambda x, y: self.S(A_, B_, x, y)
        U, D, L_, T_ = [lit(x) for x in "UDLT"]
        steps = [z3.And(d == U, i > 0, S(i, j) == S(i - 1, j) + GAP(A_[i - 1])),
                 z3.And(d == D, i > 0, j > 0, S(i, j) == S(i - 1, j - 1) + SIM(
                     A_[i - 1], B_[j - 1])),
                 z3.And(d == L_, j > 0, S(i, j) == S(i, j - 1) + GAP(B_[j - 1])),
                 z3.And(d == T_, i == 0, j == 0)]
        if self.local:
            steps = [S(i, j) <= 0] + steps[:3]
        return z3.And(tb.has(V, i, j), sc == S(i, j), z3.Or(*steps))

    def region(self, tb, cond):
        i, j = z3.Ints("ti tj")

        def f(V):
            return forall([i, j], z3.Implies(cond(V, i, j), self.cell(tb, V, i, j)),
                          [tb.pat(V, i, j)])
        return f

    def keys(self, tb):
        """no entries outside the table"""
        i, j = z3.Ints("ti tj")
        p = z3.Const("tp", PAIR.sort)

        def f(V):
            if tb.nested:
                return z3.BoolVal(True)
            dom, mp = V.dic(tb.name, PAIR, tb.vty)
            return forall(p, z3.Implies(dom[p], z3.And(
                0 <= X_(p), X_(p) <= self.la, 0 <= Y_(p), Y_(p) <= self.lb)), [dom[p]])
        return f

    def inv(self, L):
        A_, B_, la, lb = self.A, self.B, self.la, self.lb
        And, Or = z3.And, z3.Or
        ok = L.outer.k if L.outer is not None else None
        for tb in tables(L, (CELL, ICELL)):
            yield "keys-in-bounds", self.keys(tb)
            yield "corner", self.region(tb, lambda V, i, j: And(i == 0, j == 0))
            yield "left-border", self.region(tb, lambda V, i, j: And(
                0 <= i, i <= V.k, j == 0))
            yield "top-border", self.region(tb, lambda V, i, j: And(
                0 <= j, j <= V.k, i == 0))
            yield "whole-left-border", self.region(tb, lambda V, i, j: And(
                0 <= i, i <= la, j == 0))
            yield "whole-top-border", self.region(tb, lambda V, i, j: And(
                0 <= j, j <= lb, i == 0))
            yield "rows", self.region(tb, lambda V, i, j: And(
                0 <= i, i <= V.k, 0 <= j, j <= lb))
            if ok is not None:
                yield "cells", self.region(tb, lambda V, i, j: And(
                    0 <= i, 0 <= j, j <= lb, Or(i <= ok, And(i == ok + 1, j <= V.k))))
        ints = [n for n, v in sorted(L.head.env.items()) if isinstance(v, T) and v.ty == INT]
        al = changed_lists(L, PAIR)
        for a in ints:
            for b in ints:
                if a == b or not (a in L.vars or b in L.vars):
                    continue
                g = "%s,%s" % (a, b)
                yield "in-table[%s]" % g, lambda V, a=a, b=b: And(
                    0 <= V.t(a), V.t(a) <= la, 0 <= V.t(b), V.t(b) <= lb), g
                for s in al:
                    for c in self.tracks(L, a, b, s):
                        yield c[0] + "[%s,%s]" % (s, g), c[1], g

    def tracks(self, L, a, b, s):
        A_, B_, la, lb = self.A, self.B, self.la, self.lb
        S = self.S

        def ordered(V):
            arr, n = V.seq(s, PAIR)
            return sorted_pairs(arr, n, V.t(a), V.t(b), la, lb)

        def score(V):
            arr, n = V.seq(s, PAIR)
            return ALS(A_, B_, arr, 0, n, V.t(a), V.t(b), la, lb) + S(
                A_, B_, V.t(a), V.t(b)) == S(A_, B_, la, lb)

        def shift(V):
            return z3.BoolVal(True)
        yield "ordered", ordered
        yield "score", score

    def variants(self, L):
        s = int_vars(L)
        for a in s:
            for b in s:
                if a < b:
                    yield "%s+%s" % (a, b), lambda V, a=a, b=b: V.t(a) + V.t(b)

    def parts(self, c, st, ret):
        if not (isinstance(ret, Tupl) and len(ret.items) == 2):
            return None
        return ret.items

    def post(self, c, st, ret):
        self.ret = ret
        pr = self.parts(c, st, ret)
        if pr is None:
            yield "returns-table-and-alignment", z3.BoolVal(False)
            return
        tb_v, al = pr
        dom, mp = c.eng.as_dict(st, tb_v, PAIR, CELL)
        i, j = z3.Ints("ti tj")
        cell = mp[PAIR.mk(i, j)]
        yield "table-is-the-recurrence", forall(
            [i, j], z3.Implies(z3.And(0 <= i, i <= self.la, 0 <= j, j <= self.lb), z3.And(
                dom[PAIR.mk(i, j)], CELL.get(0, cell) == self.S(self.A, self.B, i, j))),
            [PAIR.mk(i, j)])
        arr, n = c.eng.as_arr(st, al, PAIR)
        yield "alignment-increasing", sorted_pairs(arr, n, 0, 0, self.la, self.lb)
        for x in self.post_score(c, st, arr, n):
            yield x

    def post_score(self, c, st, arr, n):
        yield "alignment-scores-the-corner", ALS(
            self.A, self.B, arr, 0, n, 0, 0, self.la, self.lb) == self.S(
                self.A, self.B, self.la, self.lb)


NEG = lambda: forall(z3.Const("ge", ELEM.sort), GAP(z3.Const("ge", ELEM.sort)) < 0,
                     [GAP(z3.Const("ge", ELEM.sort))])
SWPOS = Lemma("sw_not_negative", [A, A, Z, Z], lambda a, b, i, j: SWS(a, b, i, j) >= 0,
              pats=lambda a, b, i, j: [SWS(a, b, i, j)])
LEMMAS.append(SWPOS)


class SW(NW):
    """gap costs are negative, as documented"""
    target = "daeso.string.smith_waterman.smith_waterman"
    props = ("C04",)
    local = True
    S = SWS

    def setup(self, c):
        a = NW.setup(self, c)
        c.assume(NEG())
        SWPOS.use()
        return a

    def tracks(self, L, a, b, s):
        A_, B_, la, lb = self.A, self.B, self.la, self.lb
        S = lambda i, j: self.S(A_, B_, i, j)
        i0, j0 = L.entry.env.get(a), L.entry.env.get(b)
        if not (isinstance(i0, T) and isinstance(j0, T)):
            return
        i0, j0 = i0.t, j0.t

        def ordered(V):
            arr, n = V.seq(s, PAIR)
            return sorted_pairs(arr, n, V.t(a), V.t(b), i0, j0)

        def score(V):
            arr, n = V.seq(s, PAIR)
            return ALS(A_, B_, arr, 0, n, V.t(a), V.t(b), i0, j0) + S(V.t(a), V.t(b)) == S(i0, j0)

        def start(V):
            arr, n = V.seq(s, PAIR)
            return z3.If(n == 0, z3.And(V.t(a) == i0, V.t(b) == j0),
                         z3.Or(S(V.t(a), V.t(b)) > 0, arr[0] == PAIR.mk(V.t(a), V.t(b))))

        def end(V):
            arr, n = V.seq(s, PAIR)
            return z3.Implies(n > 0, arr[n - 1] == PAIR.mk(i0 - 1, j0 - 1))

        def best(V):
            i, j = z3.Ints("ti tj")
            return forall([i, j], z3.Implies(
                z3.And(0 <= i, i <= la, 0 <= j, j <= lb),
                z3.And([SWS.f0(A_, B_, i, j) <= SWS.f0(A_, B_, i0, j0)] + [
                    tb.has(V, i, j) for tb in tables(L, CELL, False)])), [SWS.f0(A_, B_, i, j)])

        def best_here(V):
            return z3.And(S(i0, j0) == SWS.f0(A_, B_, i0, j0), i0 >= 0, i0 <= la,
                          j0 >= 0, j0 <= lb)
        yield "best-in-table", best_here
        yield "best", best
        yield "ordered", ordered
        yield "score", score
        yield "start", start
        yield "end", end

    def post_score(self, c, st, arr, n):
        i, j = z3.Ints("ti tj")
        S = lambda i, j: self.S(self.A, self.B, i, j)
        dom, mp = c.eng.as_dict(st, self.parts(c, st, self.ret)[0], PAIR, CELL)
        p, q = arr[0], arr[n - 1]
        sc = z3.If(n == 0, z3.RealVal(0), ALS(
            self.A, self.B, arr, 0, n, X_(p), Y_(p), X_(q) + 1, Y_(q) + 1))
        yield "scores-as-high-as-any-cell", forall(
            [i, j], z3.Implies(z3.And(0 <= i, i <= self.la, 0 <= j, j <= self.lb),
                               z3.And(dom[PAIR.mk(i, j)], S(i, j) <= sc)), [S(i, j)])
        yield "score-attained", z3.Implies(n > 0, sc == S(X_(q) + 1, Y_(q) + 1))


class WE(SW):
    """with limit=1: the first table and the first alignment"""
    target = "daeso.string.waterman_eggert.waterman_eggert"

    def setup(self, c):
        return [SW.setup(self, c), {"limit": T(INT, z3.IntVal(1))}]

    def inv(self, L):
        for x in SW.inv(self, L):
            yield x
        if L.it is None or L.it.kind != "items":
            return
        # the best entry seen so far
        for tb in tables(L, CELL, False):
            sc = lambda V, p: CELL.get(0, V.dic(tb.name, PAIR, CELL)[1][p])
            for s in sorted(L.vars):
                for p in sorted(L.vars):
                    if s == p or L.vars[p] != PAIR or L.vars[s] not in (INT, REAL):
                        continue

                    def seen(V, s=s):
                        q = z3.Int("bq")
                        return forall(q, z3.Implies(z3.And(0 <= q, q < V.k), sc(
                            V, L.it.key(q)) <= V.enc(s, REAL)), [L.it.key(q)])

                    def is_one(V, s=s, p=p):
                        dom = V.dic(tb.name, PAIR, CELL)[0]
                        pt = V.enc(p, PAIR)
                        return z3.And(V.enc(s, REAL) >= 0, z3.Implies(
                            V.enc(s, REAL) > 0, z3.And(dom[pt], sc(V, pt) == V.enc(s, REAL))))
                    yield "best-seen[%s,%s]" % (s, p), seen
                    yield "best-is-entry[%s,%s]" % (s, p), is_one

    def post(self, c, st, ret):
        A_, B_ = self.A, self.B
        pr = self.parts(c, st, ret)
        ok = pr is not None and all(isinstance(x, Ref) and c.eng.kind_of(st, x) == "list"
                               for x in pr)
        if not ok:
            yield "returns-tables-and-alignments", z3.BoolVal(False)
            return
        pr = [st.place(x).items for x in pr]
        if None in pr:
            yield "returns-tables-and-alignments", z3.BoolVal(False)
            return
        n = [len(x) for x in pr]
        yield "at-most-one-alignment", z3.BoolVal(n[0] == n[1] and n[0] <= 1)
        i, j = z3.Ints("ti tj")
        if n[0] == 0:
            yield "none-only-if-no-positive-score", forall([i, j], z3.Implies(z3.And(
                0 <= i, i <= self.la, 0 <= j, j <= self.lb, keep(PAIR.mk(i, j))),
                SWS(A_, B_, i, j) <= 0),
                [SWS(A_, B_, i, j)])
            return
        tb, al = [x[0] for x in pr]
        for x in SW.post(self, c, st, Tupl([tb, al])):
            yield x


class MaxScore(Contract):
    """one cell of the table from its three neighbours"""
    target = "daeso.string.waterman_eggert.max_score"
    props = ("C04",)
    cases = ("list", "str", "tuple")
    S = SWS

    def setup(self, c):
        args = NW.setup(self, c)
        sc = c.dict("table", PAIR, CELL)
        i, j = c.int("i", 1), c.int("j", 1)
        self.env = {"scores": sc, "i": i, "j": j, "seq1": args[0], "seq2": args[1]}
        c.assume(*[f for _, f in self.pre(c.eng, c.st, self.env)])
        return [args[0], args[1], i, j, sc, args[2], args[3]]

    def pre(self, eng, st, env):
        dom = eng.as_dict(st, env["scores"], PAIR, CELL)[0]
        i, j = eng.enc(st, env["i"], INT), eng.enc(st, env["j"], INT)
        la, lb = eng.as_arr(st, env["seq1"])[1], eng.as_arr(st, env["seq2"])[1]
        yield "indices", z3.And(1 <= i, i <= la, 1 <= j, j <= lb)
        yield "neighbours-present", z3.And(dom[PAIR.mk(i - 1, j)], dom[PAIR.mk(i - 1, j - 1)],
                                           dom[PAIR.mk(i, j - 1)])

    def spec(self, eng, st, env, r):
        A_, B_ = eng.as_arr(st, env["seq1"])[0], eng.as_arr(st, env["seq2"])[0]
        mp = eng.as_dict(st, env["scores"], PAIR, CELL)[1]
        i, j = eng.enc(st, env["i"], INT), eng.enc(st, env["j"], INT)
        sc = lambda x, y: CELL.get(0, mp[PAIR.mk(x, y)])
        u, d, l = (sc(i - 1, j) + GAP(A_[i - 1]), sc(i - 1, j - 1) + SIM(A_[i - 1], B_[j - 1]),
                   sc(i, j - 1) + GAP(B_[j - 1]))
        s, t = CELL.get(0, r), CELL.get(1, r)
        yield "score-is-maximum", s == zmax(u, d, l, z3.RealVal(0))
        yield "step-gives-score", z3.Or(
            z3.And(t == lit("U"), s == u), z3.And(t == lit("D"), s == d),
            z3.And(t == lit("L"), s == l), z3.And(t == lit("T"), s == 0))

    def post(self, c, st, ret):
        r = c.eng.enc(st, ret, CELL)
        for x in self.spec(c.eng, st, self.env, r):
            yield x

    def apply(self, eng, st, env, e):
        ref = env["scores"]
        try:
            if eng.as_dict(st, ref, PAIR, CELL) is None:
                return None
        except Unsupported:
            return None
        st = st.copy()
        for lab, g in self.pre(eng, st, env):
            eng.oblige("pre:max_score:" + lab, st, g, e.line if e else None, "pre")
        r = z3.Const(fresh_name("cell"), CELL.sort)
        for _, f in self.spec(eng, st, env, r):
            st.assume(f)
        return [(st, eng.dec(CELL, r))]


class Recalc(Contract):
    """changes entries of the score table only; no entry appears or vanishes"""
    target = "daeso.string.waterman_eggert.recalculate_matrix"
    props = ("C04",)
    cases = ("list", "str", "tuple")

    def setup(self, c):
        args = NW.setup(self, c)
        sc = c.dict("table", PAIR, CELL)
        al = c.seq("alignment", PAIR)
        arr, n = c.eng.as_arr(c.st, al)
        dom = c.eng.as_dict(c.st, sc, PAIR, CELL)[0]
        self.S0 = sc
        self.dom = dom
        c.assume(*[f for _, f in self.pre(dom, arr, n)])
        return [args[0], args[1], sc, args[2], args[3], al]

    S = SWS

    def pre(self, dom, arr, n):
        i, j, q = z3.Ints("ti tj tq")
        yield "table-complete", forall([i, j], z3.Implies(z3.And(
            0 <= i, i <= self.la, 0 <= j, j <= self.lb), dom[PAIR.mk(i, j)]), [PAIR.mk(i, j)])
        yield "alignment-in-table", forall(q, z3.Implies(z3.And(0 <= q, q < n), z3.And(
            0 <= X_(arr[q]), X_(arr[q]) < self.la, 0 <= Y_(arr[q]), Y_(arr[q]) < self.lb)),
            [arr[q]])

    def inv(self, L):
        for n in all_dicts(L, PAIR, CELL):
            yield "same-keys", lambda V, n=n: V.dic(n, PAIR, CELL)[0] == self.dom

    def post(self, c, st, ret):
        yield "same-keys", c.eng.as_dict(st, self.S0, PAIR, CELL)[0] == self.dom
        yield "returns-nothing", z3.BoolVal(isinstance(ret, NoneV))

    def apply(self, eng, st, env, e):
        st = st.copy()
        self.A, self.la = eng.as_arr(st, env["seq1"])
        self.B, self.lb = eng.as_arr(st, env["seq2"])
        ref = env["scores"]
        dom = eng.as_dict(st, ref, PAIR, CELL)[0]
        arr, n = eng.as_arr(st, env["alignment"], PAIR)
        for lab, g in self.pre(dom, arr, n):
            eng.oblige("pre:recalculate_matrix:" + lab, st, g, e.line if e else None, "pre")
        q = st.mutate(eng.dictref(st, ref))
        q.mp = z3.Const(fresh_name("recalc"), q.mp.sort())
        return [(st, NONE)]


CONTRACTS = [NW, SW, WE, MaxScore, Recalc]

# ---- no local alignment scores better than the best cell -------------------
GPDEC = Lemma("gap_costs_decrease", [A, Z, Z], lambda a, i, k: GP(a, i) <= GP(a, k),
              hyp=lambda a, i, k: z3.And(NEG(), i >= k),
              measure=lambda a, i, k: zmax(i - k, 0),
              hints=lambda a, i, k: [(a, i - 1, k)],
              extra=lambda a, i, k: [GP(a, i - 1) == GP.f0(a, i - 1)])
SWGAP = Lemma("sw_gap", [A, A, Z, Z, Z, Z],
              lambda a, b, i, j, k, l: SWS(a, b, k, l) + GP(a, i) - GP(a, k) + GP(b, j) -
              GP(b, l) <= SWS(a, b, i, j),
              hyp=lambda a, b, i, j, k, l: z3.And(NEG(), 0 <= k, k <= i, 0 <= l, l <= j),
              measure=lambda a, b, i, j, k, l: i - k + j - l,
              hints=lambda a, b, i, j, k, l: [(a, b, i - 1, j, k, l), (a, b, i, j - 1, k, l)],
              extra=lambda a, b, i, j, k, l: [
                  GP(a, i) == GP.f0(a, i), GP(b, j) == GP.f0(b, j),
                  GP(a, i - 1) == GP.f0(a, i - 1), GP(b, j - 1) == GP.f0(b, j - 1),
                  SWS(a, b, i - 1, j) == SWS.f0(a, b, i - 1, j),
                  SWS(a, b, i, j - 1) == SWS.f0(a, b, i, j - 1),
                  GPDEC.inst(a, i, k), GPDEC.inst(b, j, l), SWPOS.inst(a, b, i, j)])
# score of al[:n] as a local alignment (from its first to its last pair)
LAL = RecFn("LAL", [A, A, AL, Z, Rl], lambda F, a, b, al, n: z3.If(
    n <= 1, SIM(a[X_(al[0])], b[Y_(al[0])]),
    F(a, b, al, n - 1) + SIM(a[X_(al[n - 1])], b[Y_(al[n - 1])]) +
    GP(a, X_(al[n - 1])) - GP(a, X_(al[n - 2]) + 1) +
    GP(b, Y_(al[n - 1])) - GP(b, Y_(al[n - 2]) + 1)))
SWOPT = Lemma("sw_optimal", [A, A, AL, Z, Z, Z],
              lambda a, b, al, n, la, lb: LAL(a, b, al, n) <= SWS(
                  a, b, X_(al[n - 1]) + 1, Y_(al[n - 1]) + 1),
              hyp=lambda a, b, al, n, la, lb: z3.And(NEG(), n >= 1, sorted_pairs(
                  al, n, 0, 0, la, lb)),
              measure=lambda a, b, al, n, la, lb: n,
              hints=lambda a, b, al, n, la, lb: [(a, b, al, n - 1, la, lb)],
              extra=lambda a, b, al, n, la, lb: [
                  SWGAP.inst(a, b, X_(al[n - 1]), Y_(al[n - 1]), X_(al[n - 2]) + 1,
                             Y_(al[n - 2]) + 1),
                  SWPOS.inst(a, b, X_(al[n - 1]), Y_(al[n - 1])),
                  SWS(a, b, X_(al[n - 1]), Y_(al[n - 1])) == SWS.f0(
                      a, b, X_(al[n - 1]), Y_(al[n - 1])),
                  LAL(a, b, al, n - 1) == LAL.f0(a, b, al, n - 1)])
LEMMAS += [GPDEC, SWGAP, SWOPT]
