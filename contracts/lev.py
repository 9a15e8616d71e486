"""Levenshtein distance"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun
from pyvc.spec import RecFn, Lemma, zmin, zmax
from pyvc.verify import Contract

A = arr_sort(ELEM)
Z = z3.IntSort()

# the classical recurrence over prefixes a[:i], b[:j]
LEV = RecFn("LEV", [A, A, Z, Z, Z], lambda F, a, b, i, j: z3.If(
    i <= 0, z3.If(j <= 0, 0, j), z3.If(j <= 0, i, zmin(
        F(a, b, i - 1, j) + 1, F(a, b, i, j - 1) + 1,
        F(a, b, i - 1, j - 1) + z3.If(a[i - 1] == b[j - 1], 0, 1)))))

SYM = Lemma("lev_symmetric", [A, A, Z, Z],
            lambda a, b, i, j: LEV(a, b, i, j) == LEV(b, a, j, i),
            hyp=lambda a, b, i, j: z3.And(i >= 0, j >= 0),
            measure=lambda a, b, i, j: i + j,
            pats=lambda a, b, i, j: [LEV(a, b, i, j)],
            hints=lambda a, b, i, j: [(a, b, i - 1, j), (a, b, i, j - 1),
                                      (a, b, i - 1, j - 1)])
BOUNDS = Lemma("lev_bounds", [A, A, Z, Z],
               lambda a, b, i, j: z3.And(LEV(a, b, i, j) >= i - j,
                                         LEV(a, b, i, j) >= j - i,
                                         LEV(a, b, i, j) >= 0,
                                         LEV(a, b, i, j) <= zmax(i, j)),
               hyp=lambda a, b, i, j: z3.And(i >= 0, j >= 0),
               measure=lambda a, b, i, j: i + j,
               pats=lambda a, b, i, j: [LEV(a, b, i, j)],
               hints=lambda a, b, i, j: [(a, b, i - 1, j), (a, b, i, j - 1),
                                         (a, b, i - 1, j - 1)])
IDENT = Lemma("lev_zero_iff_equal", [A, A, Z],
              lambda a, b, n: (LEV(a, b, n, n) == 0) == forall(
                  z3.Int("q"), z3.Implies(z3.And(0 <= z3.Int("q"), z3.Int("q") < n),
                                          a[z3.Int("q")] == b[z3.Int("q")]),
                  [a[z3.Int("q")]]),
              hyp=lambda a, b, n: n >= 0, measure=lambda a, b, n: n,
              uses=(BOUNDS,),
              hints=lambda a, b, n: [(a, b, n - 1)],
              extra=lambda a, b, n: [BOUNDS.inst(a, b, n - 1, n), BOUNDS.inst(a, b, n, n - 1),
                                     BOUNDS.inst(a, b, n - 1, n - 1)])
LEMMAS = [SYM, BOUNDS, IDENT]


class Levenshtein(Contract):
    target = "daeso.string.levenshtein.levenshtein"
    props = ("C01",)
    cases = ("list", "str", "tuple")

    def setup(self, c):
        kind = c.case
        s1 = c.seq("s1", ELEM, kind)
        s2 = c.seq("s2", ELEM, kind)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        LEV(self.A, self.B, self.la, self.lb)
        SYM.use()
        BOUNDS.use()
        return [s1, s2]

    def inv(self, L):
        rows = [n for n, t in L.vars.items() if t is not None and t.k == "seq"
                and t.args[0] == INT]
        # lists modified in place
        for n, v in L.head.env.items():
            if isinstance(v, Ref) and L.head.place(v).kind == "list" and n not in rows \
                    and L.eng.kind_of(L.head, v) == "list":
                p = L.head.place(v)
                if p.items is None and p.ety == INT:
                    rows.append(n)
        outer_k = L.outer.k if L.outer is not None else None
        for (X, Y, tag) in ((self.A, self.B, "ab"), (self.B, self.A, "ba")):
            for n in rows:
                j = z3.Int("jj")
                for di in (0, 1):
                    def full(V, n=n, X=X, Y=Y, di=di):
                        a, ln = V.seq(n, INT)
                        return forall(j, z3.Implies(z3.And(0 <= j, j < ln),
                                                    a[j] == LEV(X, Y, j, V.k + di)), [a[j]])
                    yield "row[%s,%d]" % (tag, di), full, tag
                    if outer_k is not None:
                        def part(V, n=n, X=X, Y=Y, di=di):
                            a, ln = V.seq(n, INT)
                            return forall(j, z3.Implies(
                                z3.And(0 <= j, j < ln, j <= V.k),
                                a[j] == LEV(X, Y, j, outer_k + di)), [a[j]])
                        yield "rowprefix[%s,%d]" % (tag, di), part, tag

    def post(self, c, st, ret):
        yield "result-is-edit-distance", c.eng.enc(st, ret, INT) == LEV(
            self.A, self.B, self.la, self.lb)

    def apply(self, eng, st, env, e):
        vs = list(env.values())
        a, la = eng.as_arr(st, vs[0])
        b, lb = eng.as_arr(st, vs[1])
        BOUNDS.use()
        SYM.use()
        return [(st, T(INT, LEV(a, b, la, lb)))]


class NormLevenshtein(Contract):
    target = "daeso.string.levenshtein.normalized_levenshtein"
    props = ("C01",)
    cases = ("list", "str")

    def setup(self, c):
        s1 = c.seq("s1", ELEM, c.case)
        s2 = c.seq("s2", ELEM, c.case)
        self.A, self.la = c.eng.as_arr(c.st, s1)
        self.B, self.lb = c.eng.as_arr(c.st, s2)
        return [s1, s2]

    def post(self, c, st, ret):
        t = c.eng.enc(st, ret, REAL)
        m = zmax(self.la, self.lb)
        yield "in-unit-interval", z3.And(0 <= t, t <= 1)
        yield "distance-over-longest", z3.If(m == 0, t == 0, t * z3.ToReal(m) == z3.ToReal(
            LEV(self.A, self.B, self.la, self.lb)))


CONTRACTS = [Levenshtein, NormLevenshtein]
