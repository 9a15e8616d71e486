"""inter-annotator agreement: means and deviations of a table"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort, SQRT
from pyvc.spec import *
from pyvc.verify import Contract

M = "daeso.pgc.agreement."
S_, Z = STR.sort, z3.IntSort()
R_ = z3.ToReal
LA = arr_sort(STR)
X = z3.RealSort()
MAP = Ty("arr", STR, REAL)
CELL = fun("cell", S_, S_, X)
sq = lambda x: x * x
# over the first k rows, those of other labels than c: sum, squared differences from m
COL = RecFn("COL", [LA, S_, Z, X], lambda F, l, c, k: z3.If(
    k <= 0, z3.RealVal(0), F(l, c, k - 1) + z3.If(l[k - 1] == c, 0, CELL(l[k - 1], c))))
DEV = RecFn("DEV", [LA, S_, X, Z, X], lambda F, l, c, m, k: z3.If(
    k <= 0, z3.RealVal(0), F(l, c, m, k - 1) + z3.If(l[k - 1] == c, 0, sq(CELL(l[k - 1], c) - m))))
# over the first k columns
COLS = RecFn("COLS", [LA, Z, Z, X], lambda F, l, n, k: z3.If(
    k <= 0, z3.RealVal(0), F(l, n, k - 1) + COL(l, l[k - 1], n)))
DEVS = RecFn("DEVS", [LA, X, Z, Z, X], lambda F, l, m, n, k: z3.If(
    k <= 0, z3.RealVal(0), F(l, m, n, k - 1) + DEV(l, l[k - 1], m, n)))


class Table(object):
    """the rows: cells by label, and the rows "mean" and "SD" (ghost fields)"""

    def getitem(self, eng, st, v, i, e):
        name = i.s if isinstance(i, PStr) else None
        return [(st, ModelV(Row(), owner=v.owner, name=name, row=eng.enc(st, i, STR)))]


class Row(object):
    def getitem(self, eng, st, v, i, e):
        c = eng.enc(st, i, STR)
        if v.name is None:
            return [(st, T(REAL, CELL(v.row, c)))]
        return [(st, T(REAL, st.place(v.owner).fields["@" + v.name].t[c]))]

    def setitem(self, eng, st, v, i, x, e):
        if v.name is None:
            raise Unsupported("cells change")
        st = st.copy()
        p = st.mutate(v.owner)
        p.fields["@" + v.name] = T(MAP, z3.Store(p.fields["@" + v.name].t, eng.enc(st, i, STR), eng.enc(st, x, REAL)))
        return [(st, None)]


class Stats(Contract):
    props = ("C21",)

    def setup(self, c):
        l = c.seq("labels", STR)
        self.l, self.n = c.eng.as_arr(c.st, l)
        i, j = z3.Ints("i j")
        c.assume(self.n >= 2)
        c.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < self.n, 0 <= j, j < self.n, self.l[i] == self.l[j]), i == j),
                        [z3.MultiPattern(self.l[i], self.l[j])]))
        c.assume(forall([i], z3.Implies(z3.And(0 <= i, i < self.n), self.l[i] != lit("overall")), [self.l[i]]))
        ref = c.obj(M + "AnalysesTable", {"labels": l})
        p = c.st.place(ref)
        for k in ("mean", "SD"):
            p.fields["@" + k] = T(MAP, z3.Const("old_" + k, MAP.sort))
        p.fields["__dict__"] = ModelV(Table(), owner=ref)
        self.ref = ref
        return [ref]

    def row(self, st, k):
        return st.place(self.ref).fields["@" + k].t

    def all_columns(self, V_st, row, k, f):
        i = z3.Int("i")
        return forall(i, z3.Implies(z3.And(0 <= i, i < k), self.row(V_st, row)[self.l[i]] == f(i)), [self.l[i]])


class Means(Stats):
    target = M + "AnalysesTable.calculate_av"

    def mean(self, i):
        return COL(self.l, self.l[i], self.n) / (R_(self.n) - 1)

    def inv(self, L):
        if L.it is None:
            return
        reals = [v for v, t in sorted(L.vars.items()) if t == REAL]
        if L.outer is None or L.outer.it is None:
            yield "means", lambda V: self.all_columns(V.st, "mean", V.k, self.mean)
            for v in reals:
                yield "total[%s]" % v, lambda V, v=v: V.t(v) == COLS(self.l, self.n, V.k)
        else:
            o = L.outer.k
            for v in reals:
                yield "column[%s]" % v, lambda V, v=v: V.t(v) == COL(self.l, self.l[o], V.k)
                yield "so-far[%s]" % v, lambda V, v=v: V.t(v) == COLS(self.l, self.n, o) + COL(self.l, self.l[o], V.k)

    def post(self, c, st, ret):
        yield "column-means", self.all_columns(st, "mean", self.n, self.mean)
        yield "overall-mean", self.row(st, "mean")[lit("overall")] == COLS(self.l, self.n, self.n) / (
            R_(self.n) * (R_(self.n) - 1))
        yield "deviations-untouched", self.row(st, "SD") == z3.Const("old_SD", MAP.sort)


class Deviations(Stats):
    target = M + "AnalysesTable.calculate_sd"

    def setup(self, c):
        args = Stats.setup(self, c)
        self.m = self.row(c.st, "mean")
        self.all = self.m[lit("overall")]
        return args

    def sd(self, i):
        d = DEV(self.l, self.l[i], self.m[self.l[i]], self.n)
        return z3.If(self.n == 2, z3.RealVal(0), SQRT(d / (R_(self.n) - 2)))

    def inv(self, L):
        if L.it is None:
            return
        reals = [v for v, t in sorted(L.vars.items()) if t == REAL]
        if L.outer is None or L.outer.it is None:
            yield "deviations", lambda V: self.all_columns(V.st, "SD", V.k, self.sd)
            for v in reals:
                yield "total[%s]" % v, lambda V, v=v: V.t(v) == DEVS(self.l, self.all, self.n, V.k)
        else:
            o = L.outer.k
            for v in reals:
                yield "column[%s]" % v, lambda V, v=v: V.t(v) == DEV(self.l, self.l[o], self.m[self.l[o]], V.k)
                yield "so-far[%s]" % v, lambda V, v=v: V.t(v) == DEVS(self.l, self.all, self.n, o) + DEV(
                    self.l, self.l[o], self.all, V.k)
            for v in reals:
                yield "positive[%s]" % v, lambda V, v=v: V.t(v) >= 0

    def post(self, c, st, ret):
        n = R_(self.n)
        yield "column-deviations", self.all_columns(st, "SD", self.n, self.sd)
        yield "overall-deviation", self.row(st, "SD")[lit("overall")] == SQRT(
            DEVS(self.l, self.all, self.n, self.n) / (n * (n - 1) - 1))
        yield "means-untouched", self.row(st, "mean") == self.m


CONTRACTS = [Means, Deviations]
