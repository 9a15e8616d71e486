"""statistics of parallel graph corpora and of graph banks"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, zand, zor
from pyvc.spec import *
from pyvc.verify import Contract

P = "daeso.pgc.pgcstats."
line = lambda e: e.line if e is not None else None
GB = "daeso.gb.gbstats."
GP, GR, NODE = OP("GraphPair"), OP("StatGraph"), OP("StatNode")
OCC = TUP(GR, NODE)
S_, Z, B, R_ = STR.sort, z3.IntSort(), z3.BoolSort(), z3.RealSort()
IA, XA, SA = Ty("arr", INT, INT), Ty("arr", INT, REAL), Ty("arr", INT, STR)
RELS = ("equals", "restates", "specifies", "generalizes", "intersects")
COL = dict(zip(RELS, ("EQ", "RE", "SPEC", "GEN", "INT")))
COUNTS = ("CGP", "CGPFU", "CGPFP", "CGPUR", "CNP", "CEQ", "CRE", "CGEN", "CSPEC", "CINT")
PERCENTS = ("PGPFU", "PGPFP", "PGPUR", "PEQ", "PRE", "PGEN", "PSPEC", "PINT")
# the options, whatever they are
WE, WF, WP, WU, WG = (z3.Bool("with_" + n) for n in ("empty_nodes", "failed_parses", "punc", "unaligned_roots", "unaligned_graphs"))

SRC, TGT = (fun(n + "_graph", GP.sort, GR.sort) for n in ("source", "target"))
NUMBER = fun("number_of_alignments", GP.sort, Z)
FROM, TO = (fun("aligned_" + n, GP.sort, Z, NODE.sort) for n in ("from", "to"))
REL = fun("aligned_relation", GP.sort, Z, S_)
EMPTY, PUNCT = (fun("node_is_" + n, GR.sort, NODE.sort, B) for n in ("empty", "punct"))
FAILED = fun("is_failed_parse", GR.sort, B)
ROOT = fun("root_of", GR.sort, NODE.sort)
EDGE = fun("has_edge", GP.sort, NODE.sort, NODE.sort, B)
one = lambda b: z3.If(b, 1, 0)
BASE = fun("os.path.basename", S_, S_)


def counted(g, k):
    """the k-th alignment of graph pair g counts"""
    f, t = FROM(g, k), TO(g, k)
    return z3.And(z3.Or(WE, z3.Not(z3.Or(EMPTY(SRC(g), f), EMPTY(TGT(g), t)))),
                  z3.Or(WP, z3.Not(z3.Or(PUNCT(SRC(g), f), PUNCT(TGT(g), t)))))


# among the first k alignments of g: those that count, those with a relation, those from and to a node
CNT = RecFn("CNT", [GP.sort, Z, Z], lambda F, g, k: z3.If(k <= 0, 0, F(g, k - 1) + one(counted(g, k - 1))))
CR = RecFn("CR", [GP.sort, S_, Z, Z], lambda F, g, r, k: z3.If(k <= 0, 0, F(g, r, k - 1) + one(
    z3.And(counted(g, k - 1), REL(g, k - 1) == r))))
CF = RecFn("CF", [GP.sort, NODE.sort, Z, Z], lambda F, g, n, k: z3.If(k <= 0, 0, F(g, n, k - 1) + one(
    z3.And(counted(g, k - 1), FROM(g, k - 1) == n))))
CT = RecFn("CT", [GP.sort, NODE.sort, Z, Z], lambda F, g, n, k: z3.If(k <= 0, 0, F(g, n, k - 1) + one(
    z3.And(counted(g, k - 1), TO(g, k - 1) == n))))


# -------------------------------------------------------------------- models
class Table(object):
    def getitem(self, eng, st, v, i, e):
        if not isinstance(i, PStr):
            raise Unsupported("column")
        if "@" + i.s not in st.place(v.owner).fields:
            return [(st, Exc("KeyError", i, e.line))]
        return [(st, ModelV(Column(), owner=v.owner, name=i.s))]


class Column(object):
    """rows that exist"""
    def getitem(self, eng, st, v, i, e):
        a = st.place(v.owner).fields["@" + v.name]
        return [(st, T(a.ty.args[1], a.t[eng.enc(st, i, INT)]))]

    def setitem(self, eng, st, v, i, x, e):
        st = st.copy()
        q = st.mutate(v.owner)
        a = q.fields["@" + v.name]
        q.fields["@" + v.name] = T(a.ty, z3.Store(a.t, eng.enc(st, i, INT), eng.enc(st, x, a.ty.args[1])))
        return [(st, None)]


class Attrs(object):
    """attributes of a graph or of a node"""
    def field(self, v, i):
        if not isinstance(i, PStr):
            raise Unsupported("attribute")
        return "@%s.%s" % (v.what, i.s)

    def getitem(self, eng, st, v, i, e):
        f = self.field(v, i)
        p = st.place(v.owner)
        return [(s, T(p.fields[f].ty.args[1], p.fields[f].t[v.of]) if b else Exc("KeyError", i, e.line))
                for s, b in eng.split(st, p.fields[f + "?"].t[v.of])]

    def setitem(self, eng, st, v, i, x, e):
        f = self.field(v, i)
        st = st.copy()
        q = st.mutate(v.owner)
        if f not in q.fields:
            raise Unsupported("attribute " + f)
        for n, y in ((f, eng.enc(st, x, q.fields[f].ty.args[1])), (f + "?", z3.BoolVal(True))):
            q.fields[n] = T(q.fields[n].ty, z3.Store(q.fields[n].t, v.of, y))
        return [(st, None)]

    def contains(self, eng, st, v, x):
        return [(st, st.place(v.owner).fields[self.field(v, x) + "?"].t[v.of])]

    def method(self, eng, st, v, name, args, kw, e):
        if name != "get" or len(args) not in (1, 2):
            raise Unsupported("attributes." + name)
        f = self.field(v, args[0])
        p = st.place(v.owner)
        if f not in p.fields:
            raise Unsupported("attribute " + f)
        return [(s, T(p.fields[f].ty.args[1], p.fields[f].t[v.of]) if b else (args[1:] + [NONE])[0])
                for s, b in eng.split(st, p.fields[f + "?"].t[v.of])]


class Nodes(object):
    def getitem(self, eng, st, v, i, e):
        return [(st, ModelV(Attrs(), owner=v.owner, what="node", of=OCC.mk(v.g, eng.enc(st, i, NODE))))]


class Aligns(object):
    has_iter = True

    def iterate(self, eng, st, v):
        g = v.gp
        return [(st, It(NUMBER(g), lambda k: Tupl([Tupl([T(NODE, FROM(g, k)), T(NODE, TO(g, k))]), T(STR, REL(g, k))]),
                        None, v, "aligns", key=lambda k: k))]


class Of(object):
    """method of a graph or graph pair"""
    def call(self, eng, st, v, args, kw, e):
        n, t = v.name, v.of
        if kw:
            raise Unsupported("keyword")
        if v.pair:
            if n in ("alignments_iter", "alignments") and not args:
                return [(st, ModelV(Aligns(), gp=t))]
            if n == "get_graphs" and not args:
                return [(st, Tupl([T(GR, SRC(t)), T(GR, TGT(t))]))]
            if n == "has_edge" and len(args) == 2:
                return [(st, T(BOOL, EDGE(t, *[eng.enc(st, a, NODE) for a in args])))]
        else:
            if n in ("node_is_empty", "node_is_punct") and len(args) == 1:
                return [(st, T(BOOL, {"node_is_empty": EMPTY, "node_is_punct": PUNCT}[n](t, eng.enc(st, args[0], NODE))))]
            if n == "is_failed_parse" and not args:
                return [(st, T(BOOL, FAILED(t)))]
        raise Unsupported("method " + n)


def pair_attr(eng, st, v, name, e):
    if name in ("source", "target") and len(v.items) == 2:
        return [(st, v.items[name == "target"])]
    return None


class Stats(Contract):
    props = ("C22",)
    ccols, percents, names = COUNTS, PERCENTS, ("CORPUS",)
    flags = (("with_empty_nodes", WE), ("with_failed_parses", WF), ("with_punc", WP), ("with_unaligned_roots", WU))

    def models(self, c):
        def gr_attr(eng, st, v, n, e):
            if n == "node":
                return [(st, ModelV(Nodes(), owner=self.ref, g=v.t))]
            if n == "graph":
                return [(st, ModelV(Attrs(), owner=self.ref, what="graph", of=v.t))]
            if n == "root":
                return [(st, T(NODE, ROOT(v.t)))]
            return [(st, ModelV(Of(), of=v.t, name=n, pair=False))]
        return {"attr:tuple": pair_attr, "attr:" + GR.key: gr_attr,
                "attr:" + GP.key: lambda eng, st, v, n, e: [(st, ModelV(Of(), of=v.t, name=n, pair=True))],
                "os.path.basename": lambda eng, st, args, kw, e: [(st, T(STR, BASE(eng.enc(st, args[0], STR))))]}

    def state(self, c):
        """the table, and the attributes of graphs and nodes"""
        f = {}
        for n, ty in [(n, IA) for n in self.ccols] + [(n, XA) for n in self.percents] + [(n, SA) for n in self.names]:
            f["@" + n] = T(ty, z3.Const("old_" + n, ty.sort))
        for what, ty in (("graph", GR), ("node", OCC)):
            for n, x in (("from_align", INT), ("to_align", INT)) + ((("root_aligned", BOOL),) if what == "graph" else ()):
                n = "@%s.%s" % (what, n)
                f[n] = T(Ty("arr", ty, x), z3.Const("old" + n, Ty("arr", ty, x).sort))
                f[n + "?"] = T(Ty("arr", ty, BOOL), z3.Const("old_has" + n, Ty("arr", ty, BOOL).sort))
        self.ref = c.obj("daeso.pgc.pgcstats.PgcStatsTable", f)
        self.i = c.term(INT, "i")
        self.old = {n: x.t for n, x in f.items()}
        return ModelV(Table(), owner=self.ref)

    def now(self, st, n):
        return st.place(self.ref).fields["@" + n].t

    def grown(self, st, **cols):
        """counts in row i, everything else in the table as before"""
        i = self.i.t
        for n in self.ccols:
            old = self.old["@" + n]
            yield n, self.now(st, n) == (z3.Store(old, i, old[i] + cols[n]) if n in cols else old)

    def others(self, st, names):
        for n in names:
            yield n + "-untouched", self.now(st, n) == self.old["@" + n]

    def val(self, st, n, x):
        """an attribute that counts"""
        return z3.If(self.now(st, n + "?")[x], self.now(st, n)[x], 0)

    def val0(self, n, x):
        return z3.If(self.old["@" + n + "?"][x], self.old["@" + n][x], 0)

    def inv(self, L):
        if L.it is None:
            return
        z = z3.IntVal(0)
        for j, (lab, _) in enumerate(list(self.facts(L.head, z))):
            yield lab, lambda V, j=j: list(self.facts(V.st, V.k))[j][1]


def of(g, h, n):
    return z3.And(OCC.get(0, h) == g, OCC.get(1, h) == n)


class NodePairStats(Stats):
    """each alignment that counts is one node pair of its relation, and one alignment of both its nodes"""
    target = P + "node_pair_stats"
    cases = ("pair",)

    def setup(self, c):
        t = self.state(c)
        self.gp = c.term(GP, "graph_pair")
        g = self.gp.t
        k = z3.Int("k")
        c.assume(NUMBER(g) >= 0, forall(k, zor(*[REL(g, k) == lit(r) for r in RELS]), [REL(g, k)]))
        return [self.gp, Tupl([T(GR, SRC(g)), T(GR, TGT(g))]), t, self.i, T(BOOL, WE), T(BOOL, WP)]

    def facts(self, st, k):
        g = self.gp.t
        for x in self.grown(st, CNP=CNT(g, k), **{"C" + COL[r]: CR(g, lit(r), k) for r in RELS}):
            yield x
        for x in self.others(st, PERCENTS + ("CORPUS",) + tuple("graph." + a for a in (
                "from_align", "from_align?", "to_align", "to_align?", "root_aligned", "root_aligned?"))):
            yield x
        o = z3.Const("o", OCC.sort)
        n = OCC.get(1, o)
        for a, s, F in (("from", SRC, CF), ("to", TGT, CT)):
            a = "node.%s_align" % a
            yield a, forall(o, self.val(st, a, o) == self.val0(a, o) + z3.If(OCC.get(0, o) == s(g), F(g, n, k), 0),
                            [self.now(st, a)[o], self.now(st, a + "?")[o]])

    def post(self, c, st, ret):
        return self.facts(st, NUMBER(self.gp.t))


AG = arr_sort(GP)
FP = lambda g: z3.Or(FAILED(SRC(g)), FAILED(TGT(g)))
UR = lambda g: z3.Not(EDGE(g, ROOT(SRC(g)), ROOT(TGT(g))))
OK = lambda g: z3.And(z3.Or(WF, z3.Not(FP(g))), z3.Or(WU, z3.Not(UR(g))))


def total(name, what, *sorts):
    """sum over the first graph pairs that are not discarded"""
    def body(F, a, *r):
        m, r = r[-1], r[:-1]
        return z3.If(m <= 0, 0, F(*((a,) + r + (m - 1,))) + z3.If(OK(a[m - 1]), what(a[m - 1], *r), 0))
    return RecFn(name, [AG] + list(sorts) + [Z, Z], body)


SCGP = total("SCGP", lambda g: z3.IntVal(1))
SFP = total("SFP", lambda g: one(FP(g)))
SUR = total("SUR", lambda g: one(UR(g)))
SFU = total("SFU", lambda g: one(z3.Not(z3.Or(FP(g), UR(g)))))
SNP = total("SNP", lambda g: CNT(g, NUMBER(g)))
SR = total("SR", lambda g, r: CR(g, r, NUMBER(g)), S_)
SGF = total("SGF", lambda g, x: one(SRC(g) == x), GR.sort)
SGT = total("SGT", lambda g, x: one(TGT(g) == x), GR.sort)
SGU = total("SGU", lambda g, x: one(z3.And(UR(g), z3.Or(SRC(g) == x, TGT(g) == x))), GR.sort)
SNF = total("SNF", lambda g, o: z3.If(SRC(g) == OCC.get(0, o), CF(g, OCC.get(1, o), NUMBER(g)), 0), OCC.sort)
SNT = total("SNT", lambda g, o: z3.If(TGT(g) == OCC.get(0, o), CT(g, OCC.get(1, o), NUMBER(g)), 0), OCC.sort)
# a sum of numbers that are not negative
NONNEG = Lemma("SGU-not-negative", [AG, GR.sort, Z], lambda a, x, m: SGU(a, x, m) >= 0, measure=lambda a, x, m: z3.If(m < 0, 0, m),
               pats=lambda a, x, m: [SGU.f0(a, x, m)], lim=lambda a, x, m: SGU.f0(a, x, m) >= 0)


def percentage(a, b):
    return z3.ToReal(a) / z3.ToReal(b) * 100


class GraphPairStats(Stats):
    """counts of graph pairs not discarded, of their node pairs, and their percentages; alignments of graphs and nodes"""
    target = P + "graph_pair_stats"
    cases = ("corpus",)

    def models(self, c):
        m = Stats.models(self, c)

        def node_pairs(eng, st, env, e):
            # contract NodePairStats
            g = env["graph_pair"].t
            st = st.copy()
            q = st.mutate(self.ref)
            i = self.i.t
            for n, x in [("CNP", CNT(g, NUMBER(g)))] + [("C" + COL[r], CR(g, lit(r), NUMBER(g))) for r in RELS]:
                a = q.fields["@" + n]
                q.fields["@" + n] = T(a.ty, z3.Store(a.t, i, a.t[i] + x))
            o = z3.Const("o", OCC.sort)
            for a, s, F in (("from", SRC, CF), ("to", TGT, CT)):
                a = "@node.%s_align" % a
                old = z3.If(q.fields[a + "?"].t[o], q.fields[a].t[o], 0)
                for n in (a, a + "?"):
                    q.fields[n] = T(q.fields[n].ty, q.fields[n].ty.fresh(n))
                v, h = q.fields[a].t[o], q.fields[a + "?"].t[o]
                st.assume(forall(o, z3.If(h, v, 0) == old + z3.If(OCC.get(0, o) == s(g), F(g, OCC.get(1, o), NUMBER(g)), 0), [v, h]))
            for n, x in (("with_empty_nodes", WE), ("with_punc", WP)):
                eng.oblige("option-" + n, st, eng.enc(st, env[n], BOOL) == x, line(e))
            for x, y in zip(env["graphs"].items, (SRC(g), TGT(g))):
                eng.oblige("graphs-of-the-pair", st, eng.enc(st, x, GR) == y, line(e))
            eng.oblige("row", st, eng.enc(st, env["i"], INT) == i, line(e))
            return [(st, NONE)]
        m["fn:" + NodePairStats.target] = node_pairs
        return m

    def setup(self, c):
        t = self.state(c)
        l = c.seq("pgc", GP)
        self.a, self.n = c.eng.as_arr(c.st, l)
        self.file = c.term(STR, "filename")
        NONNEG.use()
        return [self.file, l, t, self.i] + [T(BOOL, f) for n, f in self.flags]

    def facts(self, st, k):
        a = self.a
        for x in self.grown(st, CGP=SCGP(a, k), CGPFP=SFP(a, k), CGPUR=SUR(a, k), CGPFU=SFU(a, k), CNP=SNP(a, k),
                            **{"C" + COL[r]: SR(a, lit(r), k) for r in RELS}):
            yield x
        o, x = z3.Const("o", OCC.sort), z3.Const("x", GR.sort)
        for n, F, G in (("from", SNF, SGF), ("to", SNT, SGT)):
            n = "%s_align" % n
            v = "node." + n
            yield v, forall(o, self.val(st, v, o) == self.val0(v, o) + F(a, o, k), [self.now(st, v)[o], self.now(st, v + "?")[o]])
            v = "graph." + n
            yield v, forall(x, self.val(st, v, x) == self.val0(v, x) + G(a, x, k), [self.now(st, v)[x], self.now(st, v + "?")[x]])
        v = "graph.root_aligned"
        eff = lambda h, y: z3.Or(z3.Not(h), y)
        h, y = self.now(st, v + "?")[x], self.now(st, v)[x]
        yield v, forall(x, eff(h, y) == z3.And(eff(self.old["@" + v + "?"][x], self.old["@" + v][x]), SGU(a, x, k) == 0), [h, y])

    def inv(self, L):
        if L.it is None or isinstance(L.it.n, int):
            return
        for x in Stats.inv(self, L):
            yield x
        for n in PERCENTS:
            yield n, lambda V, n=n: self.now(V.st, n) == self.old["@" + n]

    def post(self, c, st, ret):
        for x in self.facts(st, self.n):
            yield x
        i = self.i.t
        yield "name", self.now(st, "CORPUS") == z3.Store(self.old["@CORPUS"], i, self.file.t)
        for n, a, b in [("PGP" + x, "CGP" + x, "CGP") for x in ("FU", "FP", "UR")] + [("P" + x, "C" + x, "CNP") for x in COL.values()]:
            a, b = self.now(st, a)[i], self.now(st, b)[i]
            old = self.old["@" + n]
            yield n, self.now(st, n) == z3.If(b == 0, old, z3.Store(old, i, percentage(a, b)))


# ----------------------------------------------------------------- graph banks
GCOUNTS = ("CG", "CGA", "CGU", "CGSA", "CGMA", "CGUR", "CGFP", "CT", "CN", "CNA", "CNU")
GREALS = ("PGA", "PGSA", "PGMA", "PGUR", "PGFP", "ATG", "ANG", "PNA")
ATTRS = {(w, n, h): z3.Const("old%s@%s.%s" % (h and "_has", w, n) + h, Ty("arr", t, BOOL if h else x).sort)
         for w, t in (("graph", GR), ("node", OCC)) for n, x in (("from_align", INT), ("to_align", INT), ("root_aligned", BOOL))
         if (w, n) != ("node", "root_aligned") for h in ("", "?")}
NN = fun("number_of_nodes", GR.sort, Z)
NODEAT = fun("node_at", GR.sort, Z, NODE.sort)
NTOK = fun("number_of_tokens", GR.sort, Z)
TOK = fun("token_at", GR.sort, Z, S_)
SIGNS = lit("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")      # string.punctuation
PUNCTUATION = lambda t: fun("substr", S_, S_, B)(t, SIGNS)
ga = lambda w, n, x: z3.If(ATTRS[w, n, "?"][x], ATTRS[w, n, ""][x], 0)
aligned = lambda w, x: z3.Or(ga(w, "from_align", x) != 0, ga(w, "to_align", x) != 0)
single = lambda x: z3.Or(ga("graph", "from_align", x) == 1, ga("graph", "to_align", x) == 1)
unrooted = lambda x: z3.And(ATTRS["graph", "root_aligned", "?"][x], z3.Not(ATTRS["graph", "root_aligned", ""][x]))


def ncounted(g, n):
    return z3.And(z3.Or(WP, z3.Not(PUNCT(g, n))), z3.Or(WE, z3.Not(EMPTY(g, n))))


# among the first k nodes (tokens) of g: those that count, those among them that are aligned
CN = RecFn("CN", [GR.sort, Z, Z], lambda F, g, k: z3.If(k <= 0, 0, F(g, k - 1) + one(ncounted(g, NODEAT(g, k - 1)))))
CNA = RecFn("CNA", [GR.sort, Z, Z], lambda F, g, k: z3.If(k <= 0, 0, F(g, k - 1) + one(
    z3.And(ncounted(g, NODEAT(g, k - 1)), aligned("node", OCC.mk(g, NODEAT(g, k - 1)))))))
CTK = RecFn("CTK", [GR.sort, Z, Z], lambda F, g, k: z3.If(k <= 0, 0, F(g, k - 1) + one(
    z3.Or(WP, z3.Not(PUNCTUATION(TOK(g, k - 1)))))))


class BankStats(Stats):
    ccols, percents, names = GCOUNTS, GREALS, ("BANK",)
    flags = Stats.flags + (("with_unaligned_graphs", WG),)

    def models(self, c):
        m = Stats.models(self, c)
        m["iter:" + GR.key] = lambda eng, st, v: [(st, It(NN(v.t), lambda k: T(NODE, NODEAT(v.t, k)), None, v, "nodes", key=lambda k: k))]
        return m

    def setup(self, c):
        t = self.state(c)
        for (w, n, h), x in ATTRS.items():
            assert self.old["@%s.%s%s" % (w, n, h)].sort() == x.sort()
            c.assume(self.old["@%s.%s%s" % (w, n, h)] == x)
            self.old["@%s.%s%s" % (w, n, h)] = x
            q = c.st.mutate(self.ref)
            f = "@%s.%s%s" % (w, n, h)
            q.fields[f] = T(q.fields[f].ty, x)
        x = z3.Const("x", GR.sort)
        c.assume(forall(x, NN(x) >= 0, [NN(x)]), forall(x, NTOK(x) >= 0, [NTOK(x)]))
        return self.args(c, t)

    def attributes(self, st):
        for (w, n, h), x in ATTRS.items():
            n = "%s.%s%s" % (w, n, h)
            yield n, self.now(st, n) == x


class NodeStats(BankStats):
    """nodes that count, aligned and unaligned"""
    target = GB + "node_stats"
    cases = ("graph",)

    def args(self, c, t):
        self.g = c.term(GR, "graph")
        return [t, self.i, self.g, T(BOOL, WE), T(BOOL, WP)]

    def facts(self, st, k):
        g = self.g.t
        for x in self.grown(st, CN=CN(g, k), CNA=CNA(g, k), CNU=CN(g, k) - CNA(g, k)):
            yield x
        for x in self.others(st, GREALS + ("BANK",)):
            yield x
        for x in self.attributes(st):
            yield x

    def post(self, c, st, ret):
        return self.facts(st, NN(self.g.t))


class CountTokens(BankStats):
    """tokens of a graph, those that are punctuation left out on request"""
    target = GB + "count_tokens"
    cases = ("graph",)

    def args(self, c, t):
        self.g = c.term(GR, "graph")
        return [self.g, T(BOOL, WP)]

    def models(self, c):
        m = BankStats.models(self, c)

        def tokens(eng, st, v, n, e):
            if n != "tokens":
                raise Unsupported("graph." + n)
            arr = z3.Const(fresh_name("tokens"), arr_sort(STR))
            i = z3.Int("i")
            st = st.copy()
            st.assume(z3.And(forall(i, arr[i] == TOK(v.t, i), [arr[i]]), NTOK(v.t) >= 0))
            return [(st, SeqV(STR, arr, NTOK(v.t), "tuple"))]
        m["attr:" + GR.key] = tokens
        return m

    def counts(self, eng, st):
        yield "tokens", lambda k: CTK(self.g.t, k)

    def inv(self, L):
        for n in int_vars(L):
            yield "counted[%s]" % n, lambda V, n=n: V.t(n) == CTK(self.g.t, V.k)

    def post(self, c, st, ret):
        n = NTOK(self.g.t)
        yield "number", c.eng.enc(st, ret, INT) == z3.If(WP, n, CTK(self.g.t, n))


GAG = arr_sort(GR)
GOK = lambda g: z3.And(z3.Or(WF, z3.Not(FAILED(g))), z3.Or(WU, z3.Not(unrooted(g))), z3.Or(WG, aligned("graph", g)))
TOKENS = lambda g: z3.If(WP, NTOK(g), CTK(g, NTOK(g)))


def gtotal(name, what):
    """sum over the first graphs that are not discarded"""
    return RecFn(name, [GAG, Z, Z], lambda F, a, m: z3.If(m <= 0, 0, F(a, m - 1) + z3.If(GOK(a[m - 1]), what(a[m - 1]), 0)))


GAL = lambda g: aligned("graph", g)
TOTALS = {
    "CG": gtotal("TCG", lambda g: z3.IntVal(1)),
    "CGA": gtotal("TCGA", lambda g: one(GAL(g))),
    "CGU": gtotal("TCGU", lambda g: one(z3.Not(GAL(g)))),
    "CGSA": gtotal("TCGSA", lambda g: one(z3.And(GAL(g), single(g)))),
    "CGMA": gtotal("TCGMA", lambda g: one(z3.And(GAL(g), z3.Not(single(g))))),
    "CGUR": gtotal("TCGUR", lambda g: one(unrooted(g))),
    "CGFP": gtotal("TCGFP", lambda g: one(FAILED(g))),
    "CT": gtotal("TCT", TOKENS),
    "CN": gtotal("TCN", lambda g: CN(g, NN(g))),
    "CNA": gtotal("TCNA", lambda g: CNA(g, NN(g))),
    "CNU": gtotal("TCNU", lambda g: CN(g, NN(g)) - CNA(g, NN(g))),
}
PARTS = [("PG" + x, "CG" + x, "CG") for x in ("A", "UR", "FP")] + [("PG" + x, "CG" + x, "CGA") for x in ("SA", "MA")] + [("PNA", "CNA", "CN")]
AVERAGES = [("ATG", "CT", "CG"), ("ANG", "CN", "CG")]


def average(a, b):
    return z3.ToReal(a) / z3.ToReal(b)


class GraphStats(BankStats):
    """counts of graphs not discarded, of their tokens and nodes, their percentages and averages"""
    target = GB + "graph_stats"
    cases = ("bank",)

    def models(self, c):
        m = BankStats.models(self, c)

        def nodes(eng, st, env, e):
            # contract NodeStats
            g = env["graph"].t
            st = st.copy()
            q = st.mutate(self.ref)
            i = self.i.t
            for n, x in (("CN", CN(g, NN(g))), ("CNA", CNA(g, NN(g))), ("CNU", CN(g, NN(g)) - CNA(g, NN(g)))):
                a = q.fields["@" + n]
                q.fields["@" + n] = T(a.ty, z3.Store(a.t, i, a.t[i] + x))
            for n, x in (("with_empty_nodes", WE), ("with_punc", WP)):
                eng.oblige("option-" + n, st, eng.enc(st, env[n], BOOL) == x, line(e))
            eng.oblige("row", st, eng.enc(st, env["i"], INT) == i, line(e))
            return [(st, NONE)]

        def tokens(eng, st, env, e):
            # contract CountTokens
            eng.oblige("option-with_punc", st, eng.enc(st, env["with_punc"], BOOL) == WP, line(e))
            return [(st, T(INT, TOKENS(env["graph"].t)))]
        m["fn:" + NodeStats.target] = nodes
        m["fn:" + CountTokens.target] = tokens
        return m

    def args(self, c, t):
        l = c.seq("graphs", GR)
        self.a, self.n = c.eng.as_arr(c.st, l)
        self.path = c.term(STR, "path")
        return [ModelV(Bank(), graphs=l, path=self.path), t, self.i] + [
            T(BOOL, f) for n, f in self.flags[:-1]] + [T(INT, z3.IntVal(0)), T(BOOL, WG)]

    def facts(self, st, k):
        for x in self.grown(st, **{n: F(self.a, k) for n, F in TOTALS.items()}):
            yield x
        for x in self.attributes(st):
            yield x

    def inv(self, L):
        if L.it is None:
            return
        for x in Stats.inv(self, L):
            yield x
        for n in GREALS:
            yield n, lambda V, n=n: self.now(V.st, n) == self.old["@" + n]

    def post(self, c, st, ret):
        for x in self.facts(st, self.n):
            yield x
        i = self.i.t
        yield "name", self.now(st, "BANK") == z3.Store(self.old["@BANK"], i, BASE(self.path.t))
        for f, parts in ((percentage, PARTS), (average, AVERAGES)):
            for n, a, b in parts:
                a, b = self.now(st, a)[i], self.now(st, b)[i]
                old = self.old["@" + n]
                yield n, self.now(st, n) == z3.If(b == 0, old, z3.Store(old, i, f(a, b)))


class Bank(object):
    has_iter = True

    def iterate(self, eng, st, v):
        return eng.iterate(st, v.graphs)

    def method(self, eng, st, v, name, args, kw, e):
        if name == "get_file_path" and not args:
            return [(st, v.path)]
        raise Unsupported("bank." + name)


# ------------------------------------------------------- all corpora together
class Overall(object):
    """a table whose columns have an overall value"""
    def getitem(self, eng, st, v, i, e):
        if not isinstance(i, PStr) or "@" + i.s not in st.place(v.owner).fields:
            return [(st, Exc("KeyError", i, line(e)))]
        return [(st, ModelV(OverallColumn(), owner=v.owner, name=i.s))]


class OverallColumn(object):
    def getattr(self, eng, st, v, n, e):
        if n != "overall":
            raise Unsupported("column." + n)
        return [(st, st.place(v.owner).fields["@" + v.name])]

    def setattr(self, eng, st, v, n, x, e):
        if n != "overall":
            raise Unsupported("column." + n)
        st = st.copy()
        old = st.place(v.owner).fields["@" + v.name]
        st.mutate(v.owner).fields["@" + v.name] = T(old.ty, eng.enc(st, x, old.ty))
        return [(st, None)]


class Overalls(Contract):
    """the overall percentage (average) is that of the overall counts; left alone when there is nothing to count"""
    props = ("C22",)
    cases = ("table",)

    def setup(self, c):
        f = {"@" + n: T(INT, z3.Int("overall_" + n)) for n in self.ccols}
        f.update({"@" + n: T(REAL, z3.Real("overall_" + n)) for n in self.percents})
        self.ref = c.obj("daeso.pgc.pgcstats.PgcStatsTable", f)
        self.old = {n: x.t for n, x in f.items()}
        return [ModelV(Overall(), owner=self.ref)]

    def post(self, c, st, ret):
        now = lambda n: st.place(self.ref).fields["@" + n].t
        for n in self.ccols:
            yield n, now(n) == self.old["@" + n]
        for n in self.percents:
            w = [(a, b) for m, a, b in self.parts if m == n]
            old = self.old["@" + n]
            if w:
                a, b = map(now, w[0])
                yield n, now(n) == z3.If(b == 0, old, self.f(a, b))
            else:
                yield n, now(n) == old


class PgcPercentages(Overalls):
    target = P + "PgcStatsTable.calc_percent_overalls"
    ccols, percents, f = COUNTS, PERCENTS, staticmethod(percentage)
    parts = [("PGP" + x, "CGP" + x, "CGP") for x in ("FU", "FP", "UR")] + [("P" + x, "C" + x, "CNP") for x in COL.values()]


class GbPercentages(Overalls):
    target = GB + "GbStatsTable.calc_percent_overalls"
    ccols, percents, f, parts = GCOUNTS, GREALS, staticmethod(percentage), PARTS


class GbAverages(Overalls):
    target = GB + "GbStatsTable.calc_average_overalls"
    ccols, percents, f, parts = GCOUNTS, GREALS, staticmethod(average), AVERAGES


COLUMN = OP("Column")
TYPE = fun("column_type", COLUMN.sort, S_)
LENGTH = fun("column_length", COLUMN.sort, Z)
VALUE = fun("column_value", COLUMN.sort, arr_sort(INT))
AT = fun("column_at", Z, COLUMN.sort)
WIDTH = z3.Int("number_of_columns")
from pyvc.engine import sum_fn


class TableValues(object):
    def method(self, eng, st, v, name, args, kw, e):
        if name in ("values", "itervalues") and not args:
            return [(st, ModelV(ColumnList(), owner=v.owner))]
        raise Unsupported("table." + name)


class ColumnList(object):
    has_iter = True

    def iterate(self, eng, st, v):
        return [(st, It(WIDTH, lambda k: T(COLUMN, AT(k)), None, v, "columns", key=lambda k: AT(k)))]


class CountOveralls(Contract):
    """the overall count is the sum of the column"""
    props = ("C22",)
    target = "daeso.stats.table.StatsTable.calc_count_overalls"
    cases = ("table",)

    def models(self, c):
        def attr(eng, st, v, n, e):
            if n == "type":
                return [(st, T(STR, TYPE(v.t)))]
            raise Unsupported("column." + n)

        def setattr_(eng, st, v, n, x, e):
            if n != "overall":
                raise Unsupported("column." + n)
            st = st.copy()
            q = st.mutate(self.ref)
            q.fields["@overall"] = T(q.fields["@overall"].ty, z3.Store(q.fields["@overall"].t, v.t, eng.enc(st, x, INT)))
            return [(st, None)]
        return {"attr:" + COLUMN.key: attr, "setattr:" + COLUMN.key: setattr_,
                "iter:" + COLUMN.key: lambda eng, st, v: [(st, It(LENGTH(v.t), lambda k: T(INT, VALUE(v.t)[k]), None, SeqV(
                    INT, VALUE(v.t), LENGTH(v.t), "list"), "seq", key=lambda k: VALUE(v.t)[k]))]}

    def setup(self, c):
        x = z3.Const("x", COLUMN.sort)
        i, j = z3.Ints("i j")
        c.assume(forall(x, LENGTH(x) >= 0, [LENGTH(x)]), WIDTH >= 0)
        # different columns
        ix = fun("column_index", COLUMN.sort, Z)
        self.ix = ix
        c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < WIDTH), ix(AT(i)) == i), [AT(i)]))
        ty = Ty("arr", COLUMN, INT)
        self.old = z3.Const("overall_before", ty.sort)
        self.ref = c.obj("daeso.stats.table.StatsTable", {"@overall": T(ty, self.old)})
        return [ModelV(TableValues(), owner=self.ref)]

    def facts(self, st, k):
        now = st.place(self.ref).fields["@overall"].t
        i = z3.Int("i")
        x = AT(i)
        want = sum_fn(INT)(VALUE(x), LENGTH(x))
        yield "summed", forall(i, z3.Implies(z3.And(0 <= i, i < k), now[x] == z3.If(TYPE(x) == lit("count"), want, self.old[x])), [x])
        yield "others", forall(i, z3.Implies(z3.And(k <= i, i < WIDTH), now[x] == self.old[x]), [x])

    def inv(self, L):
        if L.it is None or L.it.kind != "columns":
            return
        yield "summed", lambda V: list(self.facts(V.st, V.k))[0][1]
        yield "others", lambda V: list(self.facts(V.st, V.k))[1][1]

    def post(self, c, st, ret):
        return self.facts(st, WIDTH)


CONTRACTS = [NodePairStats, GraphPairStats, NodeStats, CountTokens, GraphStats, PgcPercentages, GbPercentages, GbAverages, CountOveralls]
LEMMAS = [NONNEG]
