"""Longest common subsequence"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun
from pyvc.spec import *
from pyvc.verify import Contract

A = arr_sort(ELEM)
Z = z3.IntSort()
B = z3.BoolSort()

# length of a longest common subsequence of a[:i] and b[:j]
LCSL = RecFn("LCSL", [A, A, Z, Z, Z], lambda F, a, b, i, j: z3.If(
    z3.Or(i <= 0, j <= 0), 0, z3.If(
        a[i - 1] == b[j - 1], F(a, b, i - 1, j - 1) + 1,
        zmax(F(a, b, i - 1, j), F(a, b, i, j - 1)))))

# the reversed s[:n] is a subsequence of a[i:la]
EMB = RecFn("EMB", [A, Z, A, Z, Z, B], lambda F, s, n, a, i, la: z3.Or(
    n <= 0, z3.And(i < la, z3.Or(F(s, n, a, i + 1, la), z3.And(
        a[i] == s[n - 1], F(s, n - 1, a, i + 1, la))))))

# s[q:n] is a subsequence of a[i:la]
FWD = RecFn("FWD", [A, Z, Z, A, Z, Z, B], lambda F, s, q, n, a, i, la: z3.Or(
    q >= n, z3.And(i < la, z3.Or(F(s, q, n, a, i + 1, la), z3.And(
        a[i] == s[q], F(s, q + 1, n, a, i + 1, la))))))

# s[:n] is a subsequence of a[:i]
PSUB = RecFn("PSUB", [A, Z, A, Z, B], lambda F, s, n, a, i: z3.Or(
    n <= 0, z3.And(i > 0, z3.Or(F(s, n, a, i - 1), z3.And(
        a[i - 1] == s[n - 1], F(s, n - 1, a, i - 1))))))

BND = Lemma("lcs_bounds", [A, A, Z, Z],
            lambda a, b, i, j: z3.And(LCSL(a, b, i, j) >= 0, LCSL(a, b, i, j) <= zmax(i, 0),
                                      LCSL(a, b, i, j) <= zmax(j, 0)),
            measure=lambda a, b, i, j: zmax(i, 0) + zmax(j, 0),
            pats=lambda a, b, i, j: [LCSL(a, b, i, j)],
            hints=lambda a, b, i, j: [(a, b, i - 1, j), (a, b, i, j - 1),
                                      (a, b, i - 1, j - 1)])
MONO = Lemma("lcs_step", [A, A, Z, Z],
             lambda a, b, i, j: z3.And(
                 LCSL(a, b, i - 1, j) <= LCSL(a, b, i, j),
                 LCSL(a, b, i, j - 1) <= LCSL(a, b, i, j),
                 LCSL(a, b, i, j) <= LCSL(a, b, i - 1, j) + 1,
                 LCSL(a, b, i, j) <= LCSL(a, b, i, j - 1) + 1),
             hyp=lambda a, b, i, j: z3.And(i >= 1, j >= 1),
             measure=lambda a, b, i, j: i + j,
             pats=lambda a, b, i, j: [LCSL(a, b, i, j)],
             uses=(BND,),
             hints=lambda a, b, i, j: [(a, b, i - 1, j), (a, b, i, j - 1),
                                       (a, b, i - 1, j - 1)])
MONOT = Lemma("lcs_monotone", [A, A, Z, Z, Z, Z],
              lambda a, b, i, j, i2, j2: LCSL(a, b, i2, j2) <= LCSL(a, b, i, j),
              hyp=lambda a, b, i, j, i2, j2: z3.And(i2 <= i, j2 <= j),
              measure=lambda a, b, i, j, i2, j2: (i - i2) + (j - j2),
              pats=lambda a, b, i, j, i2, j2: [z3.MultiPattern(LCSL(a, b, i2, j2),
                                                               LCSL(a, b, i, j))],
              uses=(BND,), extra=lambda a, b, i, j, i2, j2: [MONO.inst(a, b, i, j),
                                                             LCSL(a, b, i2, j2) >= 0],
              hints=lambda a, b, i, j, i2, j2: [(a, b, i - 1, j, i2, j2),
                                                (a, b, i, j - 1, i2, j2)])
SYM = Lemma("lcs_symmetric", [A, A, Z, Z],
            lambda a, b, i, j: LCSL(a, b, i, j) == LCSL(b, a, j, i),
            hyp=lambda a, b, i, j: z3.And(i >= 0, j >= 0),
            measure=lambda a, b, i, j: i + j,
            pats=lambda a, b, i, j: [LCSL(a, b, i, j)],
            hints=lambda a, b, i, j: [(a, b, i - 1, j), (a, b, i, j - 1),
                                      (a, b, i - 1, j - 1)])
FRAME = Lemma("emb_frame", [A, Z, A, Z, Z, Z, ELEM.sort],
              lambda s, n, a, i, la, m, x: EMB(z3.Store(s, m, x), n, a, i, la) ==
              EMB(s, n, a, i, la),
              hyp=lambda s, n, a, i, la, m, x: z3.And(m >= n, i >= 0),
              measure=lambda s, n, a, i, la, m, x: zmax(n, 0) + zmax(la - i, 0),
              pats=lambda s, n, a, i, la, m, x: [EMB.f0(z3.Store(s, m, x), n, a, i, la)],
              lim=lambda s, n, a, i, la, m, x: EMB.f0(z3.Store(s, m, x), n, a, i, la) ==
              EMB(s, n, a, i, la),
              hints=lambda s, n, a, i, la, m, x: [(s, n, a, i + 1, la, m, x),
                                                  (s, n - 1, a, i + 1, la, m, x)])


def rev_of(r, s, n):
    q = z3.Int("rq")
    return forall(q, z3.Implies(z3.And(0 <= q, q < n), r[q] == s[n - 1 - q]), [r[q]])


TURN = Lemma("emb_reversed", [A, A, Z, Z, A, Z, Z],
             lambda r, s, n, q, a, i, la: EMB(s, n - q, a, i, la) == FWD(r, q, n, a, i, la),
             hyp=lambda r, s, n, q, a, i, la: z3.And(0 <= q, rev_of(r, s, n), i >= 0),
             measure=lambda r, s, n, q, a, i, la: zmax(n - q, 0) + zmax(la - i, 0),
             hints=lambda r, s, n, q, a, i, la: [(r, s, n, q, a, i + 1, la),
                                                 (r, s, n, q + 1, a, i + 1, la)])
WIDEN = Lemma("emb_widen", [A, Z, A, Z, Z, Z],
              lambda s, n, a, i, i2, la: z3.Implies(EMB(s, n, a, i, la), EMB(s, n, a, i2, la)),
              hyp=lambda s, n, a, i, i2, la: z3.And(0 <= i2, i2 <= i, i <= la),
              measure=lambda s, n, a, i, i2, la: i - i2,
              pats=lambda s, n, a, i, i2, la: [z3.MultiPattern(EMB(s, n, a, i, la),
                                                               EMB(s, n, a, i2, la))],
              hints=lambda s, n, a, i, i2, la: [(s, n, a, i, i2 + 1, la)])
# any common subsequence is at most LCSL long
DROP = Lemma("psub_shorter", [A, Z, A, Z],
             lambda s, n, a, i: PSUB(s, n - 1, a, i),
             hyp=lambda s, n, a, i: PSUB(s, n, a, i),
             measure=lambda s, n, a, i: zmax(i, 0),
             hints=lambda s, n, a, i: [(s, n, a, i - 1), (s, n - 1, a, i - 1)])
MAXI = Lemma("lcs_maximal", [A, Z, A, Z, A, Z],
             lambda s, n, a, i, b, j: n <= LCSL(a, b, i, j),
             hyp=lambda s, n, a, i, b, j: z3.And(PSUB(s, n, a, i), PSUB(s, n, b, j), i >= 0, j >= 0,
                                                 n >= 0),
             measure=lambda s, n, a, i, b, j: i + j,
             hints=lambda s, n, a, i, b, j: [(s, n, a, i - 1, b, j), (s, n, a, i, b, j - 1),
                                             (s, n - 1, a, i - 1, b, j - 1),
                                             (s, n, a, i - 1, b, j - 1)],
             extra=lambda s, n, a, i, b, j: [DROP.inst(s, n, a, i - 1), DROP.inst(s, n, b, j - 1),
                                             LCSL(a, b, i, j) >= 0,
                                             BND.inst(a, b, i - 1, j - 1)], uses=(BND, MONO))
LEMMAS = [BND, MONO, MONOT, SYM, FRAME, TURN, WIDEN, DROP, MAXI]


class LCS(Contract):
    target = "daeso.string.lcs.longest_common_subsequence"
    props = ("C02",)
    cases = ("list", "str", "tuple", "mixed")

    def setup(self, c):
        self.char_ty = ELEM if c.case == "str" else None
        k1, k2 = (c.case, c.case) if c.case != "mixed" else ("list", "tuple")
        s1 = c.seq("s1", ELEM, k1)
        s2 = c.seq("s2", ELEM, k2)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        LCSL(self.A, self.B, self.la, self.lb)
        EMB(self.A, self.la, self.A, self.la, self.la)
        for l in (BND, FRAME, MONOT, WIDEN):
            l.use()
        return [s1, s2]

    def inv(self, L):
        A_, B_, la, lb = self.A, self.B, self.la, self.lb
        i, j = z3.Ints("ti tj")
        ok = outer_k = L.outer.k if L.outer is not None else None
        # --- while the table is being filled
        for tb in tables(L, INT):
            def rows(V, tb=tb):
                return forall([i, j], z3.Implies(
                    z3.And(0 <= i, i < V.k, 0 <= j, j <= lb),
                    z3.And(tb.has(V, i, j), tb.get(V, i, j) == LCSL(A_, B_, i, j))),
                    [tb.pat(V, i, j)])
            yield "rows:" + tb.name, rows
            if outer_k is not None:
                def rows2(V, tb=tb):
                    return forall([i, j], z3.Implies(
                        z3.And(0 <= i, 0 <= j, j <= lb, z3.Or(i < ok, z3.And(i == ok, j < V.k))),
                        z3.And(tb.has(V, i, j), tb.get(V, i, j) == LCSL(A_, B_, i, j))),
                        [tb.pat(V, i, j)])
                yield "cells:" + tb.name, rows2
        # --- while backtracking
        ints = int_vars(L)
        lists = all_lists(L, ELEM)
        idx = [(a, b) for a in self.scope_ints(L) for b in self.scope_ints(L) if a != b]
        for a, b in idx:
            if a not in ints and b not in ints:
                continue
            g = "%s,%s" % (a, b)
            yield "in-table[%s]" % g, lambda V, a=a, b=b: z3.And(
                0 <= V.t(a), V.t(a) <= la, 0 <= V.t(b), V.t(b) <= lb), g
            for s in lists:
                yield "count[%s,%s]" % (s, g), lambda V, a=a, b=b, s=s: (
                    V.seq(s, ELEM)[1] + LCSL(A_, B_, V.t(a), V.t(b)) == LCSL(
                        A_, B_, la, lb)), g
                for X, lx, v in ((A_, la, a), (B_, lb, b)):
                    yield "collected[%s,%s,%s]" % (s, v, X), \
                        lambda V, X=X, lx=lx, v=v, s=s: EMB(
                            V.seq(s, ELEM)[0], V.seq(s, ELEM)[1], X, V.t(v), lx), g
            # the inner loops stay on a cell of the same length
            def same(V, a=a, b=b):
                ent = L.entry.env
                return LCSL(A_, B_, V.t(a), V.t(b)) == LCSL(
                    A_, B_, ent[a].t, ent[b].t)
            yield "same-length[%s]" % g, same, g

            def upneq(V, a=a, b=b):
                return LCSL(A_, B_, V.t(a), V.t(b)) != LCSL(A_, B_, V.t(a) - 1, V.t(b))
            yield "no-step-left[%s]" % g, upneq, g
            yield "positive[%s]" % g, lambda V, a=a, b=b: LCSL(A_, B_, V.t(a), V.t(b)) > 0, g

    def scope_ints(self, L):
        return [n for n, v in sorted(L.head.env.items()) if isinstance(v, T) and v.ty == INT]

    def variants(self, L):
        s = self.scope_ints(L)
        for n in s:
            yield n, lambda V, n=n: V.t(n)
        for a in s:
            for b in s:
                if a < b:
                    yield "%s+%s" % (a, b), lambda V, a=a, b=b: V.t(a) + V.t(b)

    def post(self, c, st, ret):
        kind = c.eng.kind_of(st, ret)
        want = c.case if c.case != "mixed" else "list"
        yield "same-type-as-input", z3.BoolVal(kind == want)
        arr, n = c.eng.as_arr(st, ret, ELEM)
        yield "length-is-maximal", n == LCSL(self.A, self.B, self.la, self.lb)
        src = st.ghost.get("rev")
        for X, lx, nm in ((self.A, self.la, "first"), (self.B, self.lb, "second")):
            s2 = st.copy()
            yield "subsequence-of-" + nm, z3.Implies(
                self.turn(st, arr, n, X, lx), FWD(arr, 0, n, X, 0, lx))

    def turn(self, st, r, n, X, lx):
        """instance of TURN for the list that was reversed"""
        if z3.is_app(r) and r.decl().name().startswith("rev"):
            s = r.arg(0)
            return z3.And(TURN.inst(r, s, n, z3.IntVal(0), X, z3.IntVal(0), lx),
                          forall(z3.Int("z9"), z3.Implies(z3.And(z3.Int("z9") > 0, z3.Int("z9") < -5),
                                                          False), [r[z3.Int("z9")]]))
        return z3.BoolVal(True)

    def apply(self, eng, st, env, e):
        vs = list(env.values())
        k1, k2 = eng.kind_of(st, vs[0]), eng.kind_of(st, vs[1])
        kind = k1 if k1 == k2 and k1 in ("str", "tuple") else "list"
        a, la = eng.as_arr(st, vs[0])
        b, lb = eng.as_arr(st, vs[1])
        BND.use()
        r = z3.Const(fresh_name("lcs"), A)
        n = LCSL(a, b, la, lb)
        if kind == "list":
            return [(st, eng.new_symlist(st, ELEM, r, n))]
        return [(st, SeqV(ELEM, r, n, kind))]


class NormLCS(Contract):
    target = "daeso.string.lcs.normalized_lcs"
    props = ("C02",)
    cases = ("list", "str", "tuple")

    def setup(self, c):
        s1 = c.seq("s1", ELEM, c.case)
        s2 = c.seq("s2", ELEM, c.case)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        return [s1, s2]

    def post(self, c, st, ret):
        t = c.eng.enc(st, ret, REAL)
        m = self.la * self.lb
        l = z3.ToReal(LCSL(self.A, self.B, self.la, self.lb))
        yield "zero-on-empty", z3.Implies(z3.Or(self.la == 0, self.lb == 0), t == 0)
        yield "not-negative", t >= 0
        yield "length-over-geometric-mean", z3.Implies(
            z3.And(self.la > 0, self.lb > 0), t * t * z3.ToReal(m) == l * l)


CONTRACTS = [LCS, NormLCS]
