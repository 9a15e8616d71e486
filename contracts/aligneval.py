"""alignment evaluation: counts, measures and their summaries"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, enum_fn, card_fn, arr_sort, sum_fn, SQRT
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import NODE, PR, line

M = "daeso.pgc.evaluate."
S_, Z, P_ = STR.sort, z3.IntSort(), PR.sort
R_ = z3.ToReal
COUNTS = ("true", "pred", "common")
MEAS = ("prec", "rec", "f")
ANY = lambda: lit("__any_rel__")

# ------------------------------------------------------------- graph pairs
GP = OP("GraphPair")
G_ = GP.sort
AG = arr_sort(GP)
ALN = fun("alignments_of", G_, SET(PR).sort)
REL = fun("relation_of", G_, P_, S_)
en = lambda g, k: enum_fn(PR)(ALN(g))[k]
card = lambda g: card_fn(PR)(ALN(g))
one = lambda b: z3.If(b, 1, 0)
# among the first k alignments of g, those with relation r ...
TC = RecFn("TC", [G_, S_, Z, Z], lambda F, g, r, k: z3.If(k <= 0, 0, F(g, r, k - 1) + one(REL(g, en(g, k - 1)) == r)))
# ... that h also has with the same relation / at all
CC = RecFn("CC", [G_, G_, S_, Z, Z], lambda F, g, h, r, k: z3.If(k <= 0, 0, F(g, h, r, k - 1) + one(z3.And(
    REL(g, en(g, k - 1)) == r, ALN(h)[en(g, k - 1)], REL(h, en(g, k - 1)) == r))))
AC = RecFn("AC", [G_, G_, Z, Z], lambda F, g, h, k: z3.If(k <= 0, 0, F(g, h, k - 1) + one(ALN(h)[en(g, k - 1)])))
# over the first m graph pairs
TCS = RecFn("TCS", [AG, S_, Z, Z], lambda F, a, r, m: z3.If(m <= 0, 0, F(a, r, m - 1) + TC(a[m - 1], r, card(a[m - 1]))))
CCS = RecFn("CCS", [AG, AG, S_, Z, Z], lambda F, a, b, r, m: z3.If(m <= 0, 0, F(a, b, r, m - 1) + CC(
    a[m - 1], b[m - 1], r, card(a[m - 1]))))
ACS = RecFn("ACS", [AG, AG, Z, Z], lambda F, a, b, m: z3.If(m <= 0, 0, F(a, b, m - 1) + AC(
    a[m - 1], b[m - 1], card(a[m - 1]))))
NS = RecFn("NS", [AG, Z, Z], lambda F, a, m: z3.If(m <= 0, 0, F(a, m - 1) + card(a[m - 1])))


class Align(object):
    """the alignments of a graph pair, in some order"""
    has_iter = True

    def iterate(self, eng, st, v):
        g = v.gp
        return [(st, It(card(g), lambda k: Tupl([ModelV(Nodes(), pair=en(g, k)), T(STR, REL(g, en(g, k)))]), None, v,
                        "aligns", key=lambda k: en(g, k)))]

    def zlen(self, eng, st, v):
        return card(v.gp)


class Nodes(object):
    def type_of(self, v):
        return PR

    def enc(self, v, ty):
        return v.pair

    def getattr(self, eng, st, v, name, e):
        return [(st, T(NODE, PR.get(("source", "target").index(name), v.pair)))]


class GpMethod(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name in ("alignments_iter", "alignments") and not args and not kw:
            return [(st, ModelV(Align(), gp=v.gp))]
        if v.name == "get_align" and len(args) == 1 and isinstance(args[0], ModelV):
            p = args[0].pair
            return [(s, T(STR, REL(v.gp, p)) if b else NONE) for s, b in eng.split(st, ALN(v.gp)[p])]
        raise Unsupported("graph pair method " + v.name)


def gp_attr(eng, st, v, name, e):
    return [(st, ModelV(GpMethod(), gp=v.t, name=name))]


# ------------------------------------------------- tables of counts per relation
IM = Ty("arr", STR, INT)


class Tables(object):
    """dictionary from relations to tables; the counts are those of the last row"""

    def st(self, st, v):
        return st.place(v.owner)

    def getitem(self, eng, st, v, i, e):
        r = eng.enc(st, i, STR)
        return [(s, ModelV(Table(), owner=v.owner, rel=r, keys=v.keys) if b else Exc("KeyError", i, line(e)))
                for s, b in eng.split(st, v.keys[r])]

    def contains(self, eng, st, v, x):
        return [(st, v.keys[eng.enc(st, x, STR)])]

    def order(self, v):
        return enum_fn(STR)(v.keys)

    def iterate(self, eng, st, v):
        o = self.order(v)
        return [(st, It(card_fn(STR)(v.keys), lambda k: T(STR, o[k]), None, v, "tables", key=lambda k: o[k]))]

    def method(self, eng, st, v, name, args, kw, e):
        if name in ("values", "itervalues", "keys", "iterkeys", "items", "iteritems") and not args:
            return [(st, ModelV(Values(name), of=v))]
        raise Unsupported("table method " + name)


class Values(object):
    has_iter = True

    def __init__(self, what):
        self.what = what

    def iterate(self, eng, st, v):
        o = Tables().order(v.of)
        tab = lambda k: ModelV(Table(), owner=v.of.owner, rel=o[k], keys=v.of.keys)
        key = lambda k: T(STR, o[k])
        f = {"v": tab, "k": key, "i": lambda k: Tupl([key(k), tab(k)])}[self.what.replace("iter", "")[0]]
        return [(st, It(card_fn(STR)(v.of.keys), f, None, v, "tables", key=lambda k: o[k]))]


class Table(object):
    def zlen(self, eng, st, v):
        return st.place(v.owner).fields["@rows"].t[v.rel]

    def getitem(self, eng, st, v, i, e):
        if const_int(i) != -1:
            raise Unsupported("row that is not the last")
        return [(s, ModelV(Row(), owner=v.owner, rel=v.rel) if b else Exc("IndexError", None, line(e)))
                for s, b in eng.split(st, self.zlen(eng, st, v) > 0)]

    def method(self, eng, st, v, name, args, kw, e):
        if name != "append":
            raise Unsupported("table method " + name)
        new = st.place(args[0])
        if new.kind != "obj" or new.cls.name != "AlignCounts":
            raise Unsupported("row of another kind")
        d = st.place(new.fields["counts"])
        st = st.copy()
        q = st.mutate(v.owner)
        for k in COUNTS:
            put(q, k, v.rel, eng.enc(st, d.items[("s", k)], INT))
        put(q, "rows", v.rel, q.fields["@rows"].t[v.rel] + 1)
        return [(st, NONE)]


def put(q, k, rel, x):
    q.fields["@" + k] = T(IM, z3.Store(q.fields["@" + k].t, rel, x))


class Row(object):
    def getattr(self, eng, st, v, name, e):
        if name != "counts":
            raise Unsupported("row attribute " + name)
        return [(st, ModelV(Counts(), owner=v.owner, rel=v.rel))]


class Counts(object):
    def getitem(self, eng, st, v, i, e):
        return [(st, T(INT, st.place(v.owner).fields["@" + i.s].t[v.rel]))]

    def setitem(self, eng, st, v, i, x, e):
        st = st.copy()
        put(st.mutate(v.owner), i.s, v.rel, eng.enc(st, x, INT))
        return [(st, None)]


class Add(Contract):
    target = M + "AlignEval.add"
    props = ("C20",)
    cases = ("named", "unnamed")

    def models(self, c):
        return {"attr:" + GP.key: gp_attr}

    def setup(self, c):
        self.K = z3.Const("relations", SET(STR).sort)
        r, g, p = z3.Const("gr", S_), z3.Const("gg", G_), z3.Const("gp", P_)
        keys = z3.Const("tables", SET(STR).sort)
        c.assume(forall(r, keys[r] == z3.Or(self.K[r], r == ANY()), [keys[r], self.K[r]]))
        c.assume(z3.Not(self.K[ANY()]), keys[ANY()])
        self.a, self.n = c.eng.as_arr(c.st, c.seq("true", GP))
        self.b, self.m = c.eng.as_arr(c.st, c.seq("pred", GP))
        # relations are among those evaluated, and not empty
        c.assume(forall([g, p], z3.Implies(ALN(g)[p], self.K[REL(g, p)]), [ALN(g)[p], REL(g, p)]))
        strlen = fun("strlen", S_, Z)
        c.eng.zlen(c.st, T(STR, lit("x")))
        c.assume(forall(r, z3.Implies(self.K[r], strlen(r) > 0), [self.K[r]]))
        ref = c.obj(M + "AlignEval", {"names": c.seq("names", STR)})
        self.old = {}
        p = c.st.place(ref)
        for k in COUNTS + ("rows",):
            self.old[k] = z3.Const("old_" + k, IM.sort)
            p.fields["@" + k] = T(IM, self.old[k])
        c.assume(forall(r, self.old["rows"][r] >= 0, [self.old["rows"][r]]))
        p.fields["__dict__"] = ModelV(Tables(), owner=ref, keys=keys)
        self.ref, self.keys = ref, keys
        args = [ref, c.eng.new_symlist(c.st, GP, self.a, self.n), c.eng.new_symlist(c.st, GP, self.b, self.m)]
        self.nn = c.eng.zlen(c.st, p.fields["names"])
        if c.case == "named":
            args.append(c.term(STR, "name"))
        return args

    def now(self, st, k):
        return st.place(self.ref).fields["@" + k].t

    def done(self, st, i, part=None):
        """(label, formula): what has been counted after i graph pairs (and part of the next)"""
        r = z3.Const("gr", S_)
        a, b = self.a, self.b
        z = z3.IntVal(0)
        g, h = a[i], b[i]
        for suf, k in (("", None),) + ((("+so-far", part),) if part is not None else ()):
            x = lambda f: z if k is None else f(k)
            for what, rel, anyrel in (
                    ("true", lambda r: TCS(a, r, i) + x(lambda k: TC(g, r, k)), NS(a, i) + x(lambda k: k)),
                    ("pred", lambda r: TCS(b, r, i) + x(lambda k: TC(h, r, k)), NS(b, i) + x(lambda k: k)),
                    ("common", lambda r: CCS(a, b, r, i) + x(lambda k: CC(g, h, r, k)),
                     ACS(a, b, i) + x(lambda k: AC(g, h, k)))):
                now = self.now(st, what)
                yield what + "-per-relation" + suf, forall(r, z3.Implies(self.K[r], now[r] == rel(r)), [now[r], self.K[r]])
                yield what + "-whatever-relation" + suf, now[ANY()] == anyrel

    def inv(self, L):
        if L.it is None:
            return
        if L.it.kind == "tables":
            j = z3.Int("j")
            key = L.it.key
            ix = lambda x: fun("enum_idx_" + STR.key, SET(STR).sort, S_, Z)(self.keys, x)
            r = z3.Const("gr", S_)
            yield "rows-added", lambda V: forall(r, self.now(V.st, "rows")[r] == self.old["rows"][r] + z3.If(
                z3.And(self.keys[r], keep(key(ix(r))), ix(r) < V.k), 1, 0), [self.now(V.st, "rows")[r], self.old["rows"][r]])
            for k in COUNTS:
                yield "start-at-zero-" + k, lambda V, k=k: forall(r, z3.Implies(z3.And(
                    self.keys[r], keep(key(ix(r))), ix(r) < V.k), self.now(V.st, k)[r] == 0), [self.now(V.st, k)[r]])
        elif L.it.kind == "aligns":
            i = L.outer.k
            labs = [l for l, f in self.done(L.head, i, L.k)] + [l + "-next" for l, f in self.done(L.head, i + 1)]
            for x, lab in enumerate(labs):
                yield lab, lambda V, x=x: (list(f for l, f in self.done(V.st, i, V.k)) + list(
                    f for l, f in self.done(V.st, i + 1)))[x]
            for v in int_vars(L):
                yield "counted[%s]" % v, lambda V, v=v: V.t(v) == V.k
        else:
            for x, lab in enumerate(l for l, f in self.done(L.head, L.k)):
                yield lab, lambda V, x=x: list(self.done(V.st, V.k))[x][1]

    def post(self, c, st, ret):
        r = z3.Const("gr", S_)
        yield "corpora-of-one-size", self.n == self.m
        yield "one-more-row-in-every-table", forall(r, z3.Implies(self.keys[r], self.now(st, "rows")[r] ==
                                                                  self.old["rows"][r] + 1), [self.now(st, "rows")[r]])
        for lab, f in self.done(st, self.n):
            yield lab, f
        yield "one-more-name", c.eng.zlen(st, st.place(self.ref).fields["names"]) == self.nn + 1

    def exc(self, c, st, ex):
        if ex.cls != "AssertionError":
            return None
        return [("sizes-differ", self.n != self.m), ("no-trace", z3.And(*[
            self.now(st, k) == self.old[k] for k in COUNTS + ("rows",)]))]


# ------------------------------------------------------------------ measures
def ratio(a, b):
    return z3.If(b == 0, z3.RealVal(0), a / z3.If(b == 0, z3.RealVal(1), b))


def spec(counts, beta):
    t, p, k = (R_(counts[c]) for c in COUNTS)
    prec, rec = ratio(k, p), ratio(k, t)
    return {"prec": prec, "rec": rec,
            "f": ratio((beta * beta + 1) * prec * rec, beta * beta * prec + rec)}


class RunEval(Contract):
    target = M + "AlignCounts.run_eval"
    props = ("C20",)
    cases = ("default", "beta")

    def setup(self, c):
        self.n = {k: z3.Int(k) for k in COUNTS}
        c.assume(*[self.n[k] >= 0 for k in COUNTS])
        d = c.st.alloc(DictP(items={dict_key(k): T(INT, self.n[k]) for k in COUNTS}))
        self.ref = c.obj(M + "AlignCounts", {"counts": d, "measures": c.st.alloc(DictP(items={}))})
        self.beta = z3.RealVal(1)
        if c.case == "beta":
            self.beta = z3.Real("beta")
            c.assume(0 <= self.beta, self.beta <= 1)
            return [self.ref, T(REAL, self.beta)]
        return [self.ref]

    def post(self, c, st, ret):
        p = st.place(self.ref)
        want = spec(self.n, self.beta)
        for k in MEAS:
            for s, v in c.eng.getitem(st, p.fields["measures"], PStr(k)):
                yield k, c.eng.enc(s, v, REAL) == want[k]
        for k in COUNTS:
            for s, v in c.eng.getitem(st, p.fields["counts"], PStr(k)):
                yield "counts-unchanged-" + k, c.eng.enc(s, v, INT) == self.n[k]


def dict_key(s):
    return ("s", s)


# ------------------------------------------------ statistics over the parts
ROW = OP("AlignCountsRow")
RA = arr_sort(ROW)
IA, XA = arr_sort(INT), arr_sort(REAL)
CNT = fun("count_of", ROW.sort, S_, Z)
MEA = fun("measure_of", ROW.sort, S_, z3.RealSort())
# sum of squared differences from x over the first k entries
SQC = RecFn("SQC", [RA, S_, z3.RealSort(), Z, z3.RealSort()], lambda F, a, c, x, k: z3.If(
    k <= 0, z3.RealVal(0), F(a, c, x, k - 1) + (R_(CNT(a[k - 1], c)) - x) * (R_(CNT(a[k - 1], c)) - x)))
SQM = RecFn("SQM", [RA, S_, z3.RealSort(), Z, z3.RealSort()], lambda F, a, c, x, k: z3.If(
    k <= 0, z3.RealVal(0), F(a, c, x, k - 1) + (MEA(a[k - 1], c) - x) * (MEA(a[k - 1], c) - x)))
# columns of a table, and the sum of a column
SUMC = RecFn("SUMC", [RA, S_, Z, Z], lambda F, a, c, k: z3.If(k <= 0, 0, F(a, c, k - 1) + CNT(a[k - 1], c)))
SUMM = RecFn("SUMM", [RA, S_, Z, z3.RealSort()], lambda F, a, c, k: z3.If(
    k <= 0, z3.RealVal(0), F(a, c, k - 1) + MEA(a[k - 1], c)))
SUMI, SUMX = sum_fn(INT), sum_fn(REAL)


def same_column(x, a, c, n, val):
    i = z3.Int("i")
    return forall(i, z3.Implies(z3.And(0 <= i, i < n), x[i] == val(a[i], c)), [x[i]])


SumOfCounts = Lemma("sum-of-counts", [IA, RA, S_, Z], lambda x, a, c, n: SUMI(x, n) == SUMC(a, c, n),
                    hyp=lambda x, a, c, n: z3.And(n >= 0, same_column(x, a, c, n, CNT)),
                    measure=lambda x, a, c, n: n, hints=lambda x, a, c, n: [(x, a, c, n - 1)],
                    pats=lambda x, a, c, n: [z3.MultiPattern(SUMI(x, n), SUMC.f(a, c, n))])
SumOfMeasures = Lemma("sum-of-measures", [XA, RA, S_, Z], lambda x, a, c, n: SUMX(x, n) == SUMM(a, c, n),
                      hyp=lambda x, a, c, n: z3.And(n >= 0, same_column(x, a, c, n, MEA)),
                      measure=lambda x, a, c, n: n,
                      hints=lambda x, a, c, n: [(x, a, c, n - 1)],
                    pats=lambda x, a, c, n: [z3.MultiPattern(SUMX(x, n), SUMM.f(a, c, n))])


class RowDict(object):
    def __init__(self, of):
        self.of = of

    def getitem(self, eng, st, v, i, e):
        return [(st, self.of(i.s))]


def row_attr(eng, st, v, name, e):
    if name == "counts":
        return [(st, ModelV(RowDict(lambda c: T(INT, CNT(v.t, lit(c))))))]
    if name == "measures":
        return [(st, ModelV(RowDict(lambda c: T(REAL, MEA(v.t, lit(c))))))]
    return None


def stat(c, st, d, *path):
    for k in path:
        (st, d), = c.eng.getitem(st, d, PStr(k))
    return c.eng.enc(st, d, REAL)


class Stats(Contract):
    props = ("C20",)

    def models(self, c):
        return {"attr:" + ROW.key: row_attr}

    def nested(self, c, keys, f):
        return c.st.alloc(DictP(items={("s", k): f(k) for k in keys}))

    def setup(self, c):
        self.c = c
        SumOfCounts.use()
        SumOfMeasures.use()
        l = c.seq("rows", ROW)
        self.a, self.n = c.eng.as_arr(c.st, l)
        c.assume(self.n > 0)
        i, k = z3.Int("i"), z3.Const("k", S_)
        c.assume(forall([i, k], CNT(self.a[i], k) >= 0, [CNT(self.a[i], k)]))
        self.tables = self.nested(c, COUNTS, lambda k: self.nested(c, (), None))
        self.measures = self.nested(c, MEAS, lambda k: self.nested(c, ("macro", "micro"), lambda m: self.nested(
            c, (), None)))
        self.given(c)
        self.ref = c.obj(M + "AlignCountsTable", {"__list__": l, "count_stats": self.tables,
                                                  "measure_stats": self.measures})
        return [self.ref]

    def given(self, c):
        pass

    def inv(self, L):
        if L.it is None:
            return
        for v, ty in sorted(L.vars.items()):
            if ty == REAL:
                for k in COUNTS:
                    yield "squares-%s[%s]" % (k, v), lambda V, k=k, v=v: V.t(v) == SQC(
                        self.a, lit(k), stat(self.c, V.st, self.tables, k, "mean"), V.k)
                for k in MEAS:
                    for how in ("macro", "micro"):
                        yield "squares-%s-%s[%s]" % (k, how, v), lambda V, k=k, v=v, how=how: V.t(v) == SQM(
                            self.a, lit(k), stat(self.c, V.st, self.measures, k, how, "mean"), V.k)

    def spread(self, c, st, d, path, sq, label):
        n = R_(self.n)
        var = z3.If(self.n == 1, z3.RealVal(0), sq / (n - 1))
        yield label + "-var", stat(c, st, d, *(path + ("var",))) == var
        yield label + "-sd", stat(c, st, d, *(path + ("sd",))) == SQRT(stat(c, st, d, *(path + ("var",))))


class CountStats(Stats):
    target = M + "AlignCountsTable._eval_count_stats"

    def post(self, c, st, ret):
        for k in COUNTS:
            s = SUMC(self.a, lit(k), self.n)
            mean = R_(s) / R_(self.n)
            yield k + "-sum", stat(c, st, self.tables, k, "sum") == R_(s)
            yield k + "-mean", stat(c, st, self.tables, k, "mean") == mean
            for x in self.spread(c, st, self.tables, (k,), SQC(self.a, lit(k), stat(c, st, self.tables, k, "mean"), self.n), k):
                yield x


class MeasureStats(Stats):
    target = M + "AlignCountsTable._eval_measure_stats"

    def given(self, c):
        self.tot = {}
        for k in COUNTS:
            self.tot[k] = z3.Int("sum_" + k)
            c.assume(self.tot[k] >= 0)
            c.st.mutate(c.st.mutate(self.tables).items[("s", k)]).items[("s", "sum")] = T(INT, self.tot[k])

    def post(self, c, st, ret):
        micro = spec(self.tot, z3.RealVal(1))
        for m in MEAS:
            get = lambda *p: stat(c, st, self.measures, m, *p)
            yield m + "-macro-mean", get("macro", "mean") == SUMM(self.a, lit(m), self.n) / R_(self.n)
            yield m + "-micro-mean", get("micro", "mean") == micro[m]
            for how in ("macro", "micro"):
                for x in self.spread(c, st, self.measures, (m, how), SQM(self.a, lit(m), get(how, "mean"), self.n),
                                     m + "-" + how):
                    yield x


# ------------------------------------------------- overall, over the relations
RELS = ("equals", "restates", "specifies", "generalizes", "intersects")


class Overall(Contract):
    """the default relations; the tables have been evaluated"""
    props = ("C20",)

    def obj(self, c, d):
        return c.st.alloc(DictP(items={("s", k): v for k, v in d.items()}))

    def setup(self, c):
        tabs, self.sum, self.mean = {}, {}, {}
        for r in RELS + ("__any_rel__",):
            for k in COUNTS:
                self.sum[r, k] = z3.Int("sum_%s_%s" % (r, k))
                c.assume(self.sum[r, k] >= 0)
            for m in MEAS:
                self.mean[r, m] = z3.Real("mean_%s_%s" % (r, m))
            tabs[r] = c.obj(M + "AlignCountsTable", {
                "__list__": c.eng.new_list(c.st, []),
                "count_stats": self.obj(c, {k: self.obj(c, {"sum": T(INT, self.sum[r, k])}) for k in COUNTS}),
                "measure_stats": self.obj(c, {m: self.obj(c, {"micro": self.obj(c, {"mean": T(
                    REAL, self.mean[r, m])})}) for m in MEAS})})
        self.given(c)
        self.ref = c.obj(M + "AlignEval", {
            "__dict__": self.obj(c, tabs), "relations": Tupl([PStr(r) for r in RELS]),
            "names": c.seq("names", STR), "count_stats": self.cs, "measure_stats": self.ms})
        return [self.ref]

    def given(self, c):
        self.cs = self.obj(c, {k: self.obj(c, {}) for k in COUNTS})
        self.ms = self.obj(c, {m: self.obj(c, {"macro": self.obj(c, {}), "micro": self.obj(c, {})}) for m in MEAS})


class OverallSums(Overall):
    target = M + "AlignEval._calc_count_sums"

    def post(self, c, st, ret):
        for k in COUNTS:
            yield k + "-sum-over-relations", stat(c, st, self.cs, k, "sum") == R_(z3.Sum(*[self.sum[r, k] for r in RELS]))


class OverallMacro(Overall):
    target = M + "AlignEval._calc_measure_macro_mean"

    def post(self, c, st, ret):
        for m in MEAS:
            yield m + "-mean-over-relations", stat(c, st, self.ms, m, "macro", "mean") == z3.Sum(
                *[self.mean[r, m] for r in RELS]) / len(RELS)


class OverallMicro(Overall):
    target = M + "AlignEval._calc_measure_micro_mean"

    def given(self, c):
        Overall.given(self, c)
        self.tot = {k: z3.Int("all_" + k) for k in COUNTS}
        for k in COUNTS:
            c.assume(self.tot[k] >= 0)
        self.cs = self.obj(c, {k: self.obj(c, {"sum": T(INT, self.tot[k])}) for k in COUNTS})

    def post(self, c, st, ret):
        want = spec(self.tot, z3.RealVal(1))
        for m in MEAS:
            yield m + "-of-the-sums", stat(c, st, self.ms, m, "micro", "mean") == want[m]


CONTRACTS = [Add, RunEval, CountStats, MeasureStats, OverallSums, OverallMacro, OverallMicro]
LEMMAS = [SumOfCounts, SumOfMeasures]
