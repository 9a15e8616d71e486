"""differences between two annotations: what is reported, in which order and under which heading"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, enum_fn, card_fn, arr_sort
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import NODE, line

M = "daeso.pgc.diff."
S_, Z, B_ = STR.sort, z3.IntSort(), z3.BoolSort()
PR = TUP(STR, STR)
P_ = PR.sort
GP = OP("GraphPair")
GR = OP("Graph")
BK = OP("Banks")
G_ = GP.sort
AP = arr_sort(PR)
ALN = fun("d_alignments_of", G_, SET(PR).sort)
WANTED = fun("d_listed_alignments_of", G_, SET(PR).sort)
REL = fun("d_relation_of", G_, P_, S_)
LISTED = z3.Const("listed", SET(STR).sort)
SOMELISTED = z3.Const("some_listed", B_)
SRC, TGT, BANKS = fun("d_source", G_, GR.sort), fun("d_target", G_, GR.sort), fun("d_banks", G_, BK.sort)
SAMEG = fun("d_same_graphs", G_, G_, B_)
INNER = fun("d_non_terminal", GR.sort, S_, B_)
NUM = fun("int_of_str", S_, Z)
en = lambda g, k: enum_fn(PR)(WANTED(g))[k]
card = lambda g: card_fn(PR)(WANTED(g))
one = lambda b: z3.If(b, 1, 0)
WORDS = z3.Bool("words_only")
p1, p2 = lambda p: PR.get(0, p), lambda p: PR.get(1, p)


def kept(g, p):
    return z3.Not(z3.And(WORDS, z3.Or(INNER(SRC(g), p1(p)), INNER(TGT(g), p2(p)))))


# the sections of the report on graph pairs g and h: how many of the first k, and which
SECTIONS = {
    "ident": lambda g, h, p: z3.And(kept(g, p), ALN(h)[p], REL(g, p) == REL(h, p)),
    "differ": lambda g, h, p: z3.And(kept(g, p), ALN(h)[p], REL(g, p) != REL(h, p)),
    "first": lambda g, h, p: z3.And(kept(g, p), z3.Not(ALN(h)[p])),
    "second": lambda g, h, p: z3.And(kept(g, p), z3.Not(ALN(g)[p]))}
WHOSE = {"ident": 0, "differ": 0, "first": 0, "second": 1}
CNT = {s: RecFn("D_" + s, [G_, G_, Z, Z], lambda F, g, h, k, s=s: z3.If(k <= 0, 0, F(g, h, k - 1) + one(
    SECTIONS[s](g, h, en((g, h)[WHOSE[s]], k - 1))))) for s in SECTIONS}
def grows(s):
    gg = lambda g, h: (g, h)[WHOSE[s]]
    f = CNT[s]
    return Lemma("d-grows-" + s, [G_, G_, Z, Z], lambda g, h, j, k: z3.And(f(g, h, j) >= 0, f(g, h, j) + one(
        SECTIONS[s](g, h, en(gg(g, h), j))) <= f(g, h, k)), hyp=lambda g, h, j, k: z3.And(0 <= j, j < k),
        measure=lambda g, h, j, k: k, hints=lambda g, h, j, k: [(g, h, j, k - 1), (g, h, j - 1, j)],
        pats=lambda g, h, j, k: [z3.MultiPattern(en(gg(g, h), j), f.f0(g, h, j), f.f(g, h, k))],
        lim=lambda g, h, j, k: z3.And(f.f0(g, h, j) >= 0, f.f0(g, h, j) + one(SECTIONS[s](g, h, en(gg(g, h), j))) <= f.f0(g, h, k)))


LEMMAS = [grows(s) for s in sorted(SECTIONS)]
INDEX = fun("d_index", AP, Z, P_, Z)


class Listed(object):
    """the relations to report on"""

    def truth(self, eng, st, v):
        return [(st, SOMELISTED)]

    def contains(self, eng, st, v, x):
        return [(st, LISTED[eng.enc(st, x, STR)])]


class Aligned(object):
    has_iter = True

    def iterate(self, eng, st, v):
        w = WANTED(v.gp)
        if v.all:
            w = ALN(v.gp)
        e, n = enum_fn(PR)(w), card_fn(PR)(w)
        return [(st, It(n, lambda k: Tupl([ModelV(Nodes(), pair=e[k]), T(STR, REL(v.gp, e[k]))]), None, v, "aligns", key=lambda k: e[k]))]

    def zlen(self, eng, st, v):
        return card_fn(PR)(ALN(v.gp) if v.all else WANTED(v.gp))


class Nodes(object):
    def type_of(self, v):
        return PR

    def enc(self, v, ty):
        return v.pair

    def getattr(self, eng, st, v, name, e):
        return [(st, T(STR, PR.get(("source", "target").index(name), v.pair)))]


class Sides(object):
    def getattr(self, eng, st, v, name, e):
        return [(st, T(GR, {"source": SRC, "target": TGT}[name](v.gp)))]


class Method(object):
    def call(self, eng, st, v, args, kw, e):
        g, n = v.of, v.name
        if n in ("alignments_iter", "alignments"):
            r = list(args) + list(kw.values())
            if len(r) > 1 or r and not isinstance(r[0], NoneV) and not isinstance(getattr(r[0], "model", None), Listed):
                raise Unsupported("alignments of other relations")
            return [(st, ModelV(Aligned(), gp=g, all=not r or isinstance(r[0], NoneV)))]
        if n == "get_align" and len(args) == 1:
            p = eng.enc(st, args[0], PR)
            return [(s, T(STR, REL(g, p)) if b else NONE) for s, b in eng.split(st, ALN(g)[p])]
        if n == "get_graphs" and not args:
            return [(st, ModelV(Sides(), gp=g))]
        if n == "_graphs_equal" and len(args) == 1:
            return [(st, B(SAMEG(g, args[0].t)))]
        if n in ("node_is_terminal", "node_is_non_terminal") and len(args) == 1 and not kw:
            x = INNER(g, eng.enc(st, args[0], STR))
            return [(st, B(x if "non" in n else z3.Not(x)))]
        if n in ("get_graph_token_string", "get_node_token_string"):
            return [(st, T(STR, fun("d_" + n, *([GR.sort] + [S_] * (len(args) + 1)))(g, *[eng.enc(st, a, STR) for a in args])))]
        raise Unsupported("method " + n)


class Attrs(object):
    def getitem(self, eng, st, v, i, e):
        n = eng.enc(st, i, STR)
        if v.node is None:
            return [(st, ModelV(Attrs(), gr=v.gr, node=n))]
        return [(st, T(STR, fun("d_attribute", GR.sort, S_, S_, S_)(v.gr, v.node, n)))]


def gp_attr(eng, st, v, name, e):
    if name == "_banks":
        return [(st, T(BK, BANKS(v.t)))]
    if name == "_graphs":
        return [(st, ModelV(Sides(), gp=v.t))]
    return [(st, ModelV(Method(), of=v.t, name=name))]


def graph_attr(eng, st, v, name, e):
    if name == "node":
        return [(st, ModelV(Attrs(), gr=v.t, node=None))]
    return [(st, ModelV(Method(), of=v.t, name=name))]


def pair_attr(eng, st, v, name, e):
    if name not in ("source", "target"):
        return None
    if isinstance(v, Tupl):
        return [(st, v.items[("source", "target").index(name)])]
    return [(st, T(STR, PR.get(("source", "target").index(name), v.t)))]


def sort(eng, st, ref, args, kw, e):
    """list.sort: the same elements, in the order of the numbers of their source nodes, which the key or the comparison has to give"""
    q = st.place(ref)
    if q.items is not None and not q.items:
        return [(st, NONE)]
    names = dict(zip(("cmp", "key", "reverse"), args))
    names.update(kw)
    used = {k: v for k, v in names.items() if not isinstance(v, NoneV)}
    if len(used) != 1 or not set(used) <= {"cmp", "key"}:
        raise Unsupported("sort with several options")
    (how, f), = used.items()
    x, y = (ModelV(Nodes(), pair=z3.Const(n, P_)) for n in ("left", "right"))
    a, b = NUM(p1(x.pair)), NUM(p1(y.pair))
    for s, r in eng.call(st.copy(), f, [x, y] if how == "cmp" else [x], {}, e):
        if isinstance(r, Exc):
            eng.oblige("ordered-without-failure", s, z3.BoolVal(False), line(e))
            continue
        r = eng.enc(s, r, INT)
        eng.oblige("ordered-by-source-node", s, r == a if how == "key" else z3.And(
            (r < 0) == (a < b), (r > 0) == (a > b)), line(e))
    arr, n = eng.as_arr(st, ref)
    st = st.copy()
    new = Ty("arr", INT, PR).fresh("sorted")
    i, j, p = z3.Int("i"), z3.Int("j"), z3.Const("p", P_)
    old = fun("d_old_index", AP, Z, Z)
    st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(
        0 <= INDEX(new, n, arr[i]), INDEX(new, n, arr[i]) < n, new[INDEX(new, n, arr[i])] == arr[i])), [arr[i]]))
    st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(
        0 <= old(new, i), old(new, i) < n, new[i] == arr[old(new, i)])), [new[i]]))
    st.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), NUM(p1(new[i])) <= NUM(p1(new[j]))),
                     [z3.MultiPattern(new[i], new[j])]))
    q = st.mutate(ref)
    q.items, q.ety, q.arr, q.ln = None, PR, new, n
    return [(st, NONE)]


MODELS = {"attr:" + GP.key: gp_attr, "attr:" + GR.key: graph_attr, "attr:tuple": pair_attr, "sort": sort}


class Report(Contract):
    """annotators reported on are different names for the order of sections; relations are not empty; nodes are numbered"""
    target = M + "pgc_diff"
    props = ("C23",)
    cases = ("with-identical", "without-identical", "given-relations")

    def models(self, c):
        m = dict(MODELS)
        names = (["ident"] if c.case != "without-identical" else []) + ["differ", "first", "second"]
        self.K = len(names)

        def log(st, **kw):
            q = st.mutate(self.out)
            for k, v in kw.items():
                q.fields["@" + k] = v
            return st

        def header(eng, st, env, e):
            st = st.copy()
            s = env["s"]
            if not (isinstance(s, Ref) and s == self.out):
                return [(st, T(STR, fun("d_header", S_, S_)(eng.enc(st, env["head"], STR))))]
            heads = self.now(st, "heads")
            p, k = self.now(st, "pair"), self.now(st, "section")
            eng.oblige("heading-at-its-place", st, z3.And(k == 0, z3.Or(heads == p + 1, z3.And(heads == 0, p == 0))), line(e))
            return [(log(st, heads=T(INT, heads + 1)), T(STR, fun("d_header", S_, S_)(eng.enc(st, env["head"], STR))))]

        def section(eng, st, env, e):
            st = st.copy()
            i, k = self.now(st, "pair"), self.now(st, "section")
            g, h = self.a[i], self.b[i]
            l = line(e)
            eng.oblige("of-these-graph-pairs", st, z3.And(env["graph_pair1"].t == g, env["graph_pair2"].t == h), l)
            eng.oblige("after-the-heading", st, self.now(st, "heads") == i + 2, l)
            n0 = eng.enc(st, env["align_count"], INT)
            eng.oblige("numbered-on", st, n0 == self.now(st, "number"), l)
            eng.oblige("to-the-output", st, z3.BoolVal(isinstance(env["out"], Ref) and env["out"] == self.out), l)
            x = env["nodes_list"]
            if isinstance(st.place(x).items, list) and not st.place(x).items:
                arr, n = z3.Const("none", AP), z3.IntVal(0)
            else:
                arr, n = eng.as_arr(st, x)
            title = eng.enc(st, env["title"], STR)
            j, p, q = z3.Int("j"), z3.Const("p", P_), z3.Int("q")
            for z, s in enumerate(names):
                gg = (g, h)[WHOSE[s]]
                here = k == z
                in_ = lambda p: z3.And(WANTED(gg)[p], SECTIONS[s](g, h, p))
                eng.oblige("%s-title" % s, st, z3.Implies(here, title == self.titles[s]), l)
                eng.oblige("%s-nothing-else" % s, st, forall(j, z3.Implies(z3.And(here, 0 <= j, j < n), in_(arr[j])), [arr[j]]), l)
                e_k = en(gg, j)
                eng.oblige("%s-everything" % s, st, forall(j, z3.Implies(z3.And(here, 0 <= j, j < card(gg), SECTIONS[s](g, h, e_k)), z3.And(
                    0 <= INDEX(arr, n, e_k), INDEX(arr, n, e_k) < n, arr[INDEX(arr, n, e_k)] == e_k)), [en(gg, j)]), l)
                eng.oblige("%s-once" % s, st, z3.Implies(here, n == CNT[s](g, h, card(gg))), l)
            eng.oblige("in-order", st, forall([j, q], z3.Implies(z3.And(0 <= j, j < q, q < n), NUM(p1(arr[j])) <= NUM(p1(arr[q]))),
                                              [z3.MultiPattern(arr[j], arr[q])]), l)
            last = k == self.K - 1
            n1 = z3.Int(fresh_name("number"))
            st.assume(n1 == n0 + n)          # contract Section
            st = log(st, pair=T(INT, z3.If(last, i + 1, i)), section=T(INT, z3.If(last, 0, k + 1)), number=T(INT, n1))
            return [(st, T(INT, n1))]

        m.update({"fn:daeso.utils.report.header": header, "fn:" + M + "print_alignments": section,
                  "fn:" + M + "print_comments": lambda eng, st, env, e: [(st, NONE)]})
        return m

    def now(self, st, k):
        return st.place(self.out).fields["@" + k].t

    def setup(self, c):
        g, p, s = z3.Const("g", G_), z3.Const("p", P_), z3.Const("s", S_)
        c.assume(forall([g, p], WANTED(g)[p] == z3.And(ALN(g)[p], z3.Or(z3.Not(SOMELISTED), LISTED[REL(g, p)])), [WANTED(g)[p], ALN(g)[p]]))
        c.eng.zlen(c.st, T(STR, lit("x")))
        c.assume(forall([g, p], z3.Implies(ALN(g)[p], fun("strlen", S_, Z)(REL(g, p)) > 0), [REL(g, p)]))
        c.assume(forall(s, fun("is_int_str", S_, B_)(s), [fun("is_int_str", S_, B_)(s)]))
        self.a, self.n = c.eng.as_arr(c.st, c.seq("corpus1", GP))
        self.b, self.m = c.eng.as_arr(c.st, c.seq("corpus2", GP))
        rel = ModelV(Listed())
        given = c.case == "given-relations"
        mk = lambda a, n, r: c.obj("daeso.pgc.corpus.ParallelGraphCorpus", {"__list__": c.eng.new_symlist(c.st, GP, a, n), "_relations": r})
        one, two = mk(self.a, self.n, ModelV(Listed()) if not given else T(STR, z3.Const("own", S_))), mk(self.b, self.m, T(STR, z3.Const("other", S_)))
        if given:
            c.assume(SOMELISTED)
        for l in LEMMAS:
            l.use()
        self.out = c.obj("daeso.pgc.evaluate.AlignEval", {})
        q = c.st.mutate(self.out)
        for k in ("heads", "pair", "section", "number"):
            q.fields["@" + k] = T(INT, z3.IntVal(0))
        n1, n2, x1, x2 = [c.term(STR, n) for n in ("name1", "name2", "annot1", "annot2")]
        cat = lambda a: c.eng.enc(c.st, c.eng.concat(c.st, a, PStr(" only")), STR)
        self.titles = {"ident": lit("Identical"), "differ": lit("Relation different"), "first": cat(x1), "second": cat(x2)}
        return [one, two, n1, n2, x1, x2, T(BOOL, WORDS), c.term(BOOL, "comments"), B(c.case != "without-identical"),
                rel if given else NONE, self.out]

    def inv(self, L):
        if L.it is None:
            return
        if L.it.kind == "aligns":
            i = L.outer.k
            g, h = self.a[i], self.b[i]
            j = z3.Int("j")
            for v in changed_lists(L, PR):
                for s in SECTIONS:
                    gg = (g, h)[WHOSE[s]]
                    yield "%s-so-far[%s]" % (s, v), lambda V, v=v, s=s: V.seq(v, PR)[1] == CNT[s](g, h, V.k)
                    yield "%s-only[%s]" % (s, v), lambda V, v=v, s=s, gg=gg: forall(j, z3.Implies(z3.And(
                        0 <= j, j < V.seq(v, PR)[1]), z3.And(WANTED(gg)[V.seq(v, PR)[0][j]], SECTIONS[s](g, h, V.seq(v, PR)[0][j]))),
                        [V.seq(v, PR)[0][j]])
                    yield "%s-all[%s]" % (s, v), lambda V, v=v, s=s, gg=gg: forall(j, z3.Implies(z3.And(
                        0 <= j, j < V.k, SECTIONS[s](g, h, en(gg, j))), V.seq(v, PR)[0][CNT[s](g, h, j)] == en(gg, j)), [en(gg, j)])
        else:
            yield "headings", lambda V: self.now(V.st, "heads") == V.k + 1
            yield "pairs", lambda V: z3.And(self.now(V.st, "pair") == V.k, self.now(V.st, "section") == 0)
            for v in int_vars(L):
                yield "number[%s]" % v, lambda V, v=v: V.t(v) == self.now(V.st, "number")
                yield "pair-number[%s]" % v, lambda V, v=v: V.t(v) == V.k

    def post(self, c, st, ret):
        yield "every-pair-reported", z3.And(self.now(st, "pair") == self.n, self.now(st, "section") == 0,
                                            self.now(st, "heads") == self.n + 1)

    def exc(self, c, st, ex):
        if ex.cls != "AssertionError":
            return None
        i = self.now(st, "pair")
        return [("corpora-differ", z3.Or(self.n != self.m, BANKS(self.a[i]) != BANKS(self.b[i]), z3.Not(SAMEG(self.a[i], self.b[i]))))]


class Section(Contract):
    """one part of the report: alignments of either graph pair, shown in the order given; the layout is executed in the bounded checks"""
    target = M + "print_alignments"
    props = ("C23",)

    def models(self, c):
        m = dict(MODELS)

        def header(eng, st, env, e):
            st = st.copy()
            s = env["s"]
            if not isinstance(s, NoneV):
                q = st.mutate(self.out)
                l = line(e)
                eng.oblige("heading-to-the-output", st, z3.BoolVal(isinstance(s, Ref) and s == self.out), l)
                eng.oblige("heading-is-the-title", st, eng.enc(st, env["head"], STR) == self.title.t, l)
                eng.oblige("heading-once", st, q.fields["@heads"].t == 0, l)
                q.fields["@heads"] = T(INT, q.fields["@heads"].t + 1)
            return [(st, T(STR, fun("d_header", S_, S_)(eng.enc(st, env["head"], STR))))]
        m["fn:daeso.utils.report.header"] = header
        return m

    def setup(self, c):
        self.out = c.obj("daeso.pgc.evaluate.AlignEval", {})
        c.st.mutate(self.out).fields["@heads"] = T(INT, z3.IntVal(0))
        self.n0 = c.term(INT, "align_count")
        self.title = c.term(STR, "title")
        g, h = c.term(GP, "graph_pair1"), c.term(GP, "graph_pair2")
        l = c.seq("nodes_list", PR)
        self.arr, self.n = c.eng.as_arr(c.st, l)
        return [self.n0, self.title, g, h, ModelV(Sides(), gp=g.t), l, self.out]

    def inv(self, L):
        if L.it is None:
            return
        yield "headed", lambda V: V.st.place(self.out).fields["@heads"].t == 1
        for v in int_vars(L):
            yield "number[%s]" % v, lambda V, v=v: V.t(v) == self.n0.t + V.k

    def post(self, c, st, ret):
        yield "number-of-the-last", c.eng.enc(st, ret, INT) == self.n0.t + self.n
        yield "a-heading-if-there-are-alignments", st.place(self.out).fields["@heads"].t == one(self.n > 0)


CONTRACTS = [Report, Section]
