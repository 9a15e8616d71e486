"""evaluation and differences of text alignment"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort, card_fn, inter_fn
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import line

E = "daeso.ptc.evaluate."
D = "daeso.ptc.diff."
S_, Z, B_, R_ = STR.sort, z3.IntSort(), z3.BoolSort(), z3.RealSort()
one = lambda b: z3.If(b, 1, 0)
PR = TUP(STR, STR)
LINK = OP("EvalLink")
ATTRS = ("from_tag", "from_id", "to_tag", "to_id")
ATTR = {a: fun("v_" + a, LINK.sort, S_) for a in ATTRS}
TAG = z3.Const("tag", S_)


# ----------------------------------------------------------------- evaluation
class Scores(Contract):
    target = E + "compute_scores"
    props = ("C26",)

    def setup(self, c):
        self.n = [c.term(INT, x) for x in ("n_true", "n_pred", "n_common")]
        t, p, m = (x.t for x in self.n)
        c.assume(t >= 0, p >= 0, m >= 0, m <= t, m <= p)
        return self.n

    def post(self, c, st, ret):
        t, p, m = (z3.ToReal(x.t) for x in self.n)
        (s, vs), = c.eng.bind(c.eng.to_list(st, ret), lambda s, l: [(s, l)])
        items = c.eng.conc_items(s, vs)
        yield "four-scores", z3.BoolVal(items is not None and len(items) == 4)
        if items is None or len(items) != 4:
            return
        ratio, prec, rec, f = (c.eng.enc(s, x, REAL) for x in items)
        quot = lambda a, b: z3.If(b == 0, z3.RealVal(0), a / b)
        yield "ratio", ratio == quot(p, t)
        yield "precision", prec == quot(m, p)
        yield "recall", rec == quot(m, t)
        yield "f-score", z3.If(z3.Or(t == 0, p == 0, m == 0), f == 0, f * (t + p) == 2 * m)
        yield "range", z3.And(0 <= prec, prec <= 1, 0 <= rec, rec <= 1, 0 <= f, f <= 1)


NL, LAT = fun("v_links", OP("Corpus_v").sort, Z), fun("v_link", OP("Corpus_v").sort, Z, LINK.sort)
CO = OP("Corpus_v")
of_tag = lambda l: z3.And(ATTR["from_tag"](l) == TAG, ATTR["to_tag"](l) == TAG)
ends = lambda l: PR.mk(ATTR["from_id"](l), ATTR["to_id"](l))
WANT = fun("v_alignments", CO.sort, SET(PR).sort)          # the pairs of ids of the links with the tag


NTAG = RecFn("v_with_tag", [CO.sort, Z, Z], lambda F, x, k: z3.If(k <= 0, 0, F(x, k - 1) + one(of_tag(LAT(x, k - 1)))))
GROWS = Lemma("v-with-tag-grows", [CO.sort, Z, Z], lambda x, j, k: z3.And(0 <= NTAG(x, j), NTAG(x, j) + one(of_tag(LAT(x, j))) <= NTAG(x, k)), hyp=lambda x, j, k: z3.And(0 <= j, j < k),
              measure=lambda x, j, k: k, hints=lambda x, j, k: [(x, j, k - 1), (x, j - 1, j)],
              extra=lambda x, j, k: [NTAG(x, j) == NTAG.f0(x, j), NTAG(x, k - 1) == NTAG.f0(x, k - 1)],
              pats=lambda x, j, k: [z3.MultiPattern(NTAG.f0(x, j), NTAG.f(x, k))],
              lim=lambda x, j, k: z3.And(0 <= NTAG.f0(x, j), NTAG.f0(x, j) + one(of_tag(LAT(x, j))) <= NTAG.f0(x, k)))


def wanted(c):
    x, p, k = z3.Const("cv", CO.sort), z3.Const("cp", PR.sort), z3.Int("ck")
    w = fun("v_link_of", CO.sort, PR.sort, Z)
    c.assume(forall([x, p], z3.Implies(WANT(x)[p], z3.And(0 <= w(x, p), w(x, p) < NL(x), of_tag(LAT(x, w(x, p))), ends(LAT(x, w(x, p))) == p)), [WANT(x)[p]]),
             forall([x, k], z3.Implies(z3.And(0 <= k, k < NL(x), of_tag(LAT(x, k))), WANT(x)[ends(LAT(x, k))]), [LAT(x, k)]),
             forall(x, NL(x) >= 0, [NL(x)]))


class LinkGet(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name != "get" or len(args) != 1 or kw or not isinstance(args[0], PStr) or args[0].s not in ATTRS:
            raise Unsupported("attribute of a link")
        return [(st, T(STR, ATTR[args[0].s](v.el)))]


class CorpusM(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name != "get_alignments" or args or kw:
            raise Unsupported("method of a corpus")
        return [(st, ModelV(LinksOf(), co=v.el))]


class LinksOf(object):
    has_iter = True

    def iterate(self, eng, st, v):
        f = lambda k: LAT(v.co, k)
        return [(st, It(NL(v.co), lambda k: T(LINK, f(k)), None, v, "links", key=f))]


def attr(model):
    return lambda eng, st, v, name, e: [(st, ModelV(model(), el=v.t, name=name))]


class Alignment(Contract):
    target = E + "get_alignment"
    props = ("C26",)

    def models(self, c):
        return {"attr:" + LINK.key: attr(LinkGet), "attr:" + CO.key: attr(CorpusM)}

    def setup(self, c):
        wanted(c)
        GROWS.use()
        self.co = c.term(CO, "corpus")
        return [self.co, T(STR, TAG)]

    def upto(self, S, k):
        j, p = z3.Int("j"), z3.Const("p", PR.sort)
        w = fun("v_found_at", PR.sort, Z)
        f = lambda i: LAT(self.co.t, i)
        yield "links-with-the-tag", forall(j, z3.Implies(z3.And(0 <= j, j < k, of_tag(f(j))), S[ends(f(j))]), [f(j)])
        yield "nothing-else", forall(p, z3.Implies(S[p], WANT(self.co.t)[p]), [S[p]])

    def counts(self, eng, st):
        yield "with-the-tag", lambda k: NTAG(self.co.t, k)

    def inv(self, L):
        for v in changed_sets(L, PR):
            for m, lab in enumerate(("links-with-the-tag", "nothing-else")):
                yield "%s[%s]" % (lab, v), lambda V, v=v, m=m: list(self.upto(V.set(v, PR), V.k))[m][1]
        x, j = self.co.t, z3.Int("j")
        for v in changed_lists(L, PR):
            yield "number[%s]" % v, lambda V, v=v: V.seq(v, PR)[1] == NTAG(x, V.k)
            yield "ends[%s]" % v, lambda V, v=v: forall(j, z3.Implies(z3.And(0 <= j, j < V.k, of_tag(LAT(x, j))), V.seq(v, PR)[0][NTAG(x, j)] == ends(LAT(x, j))), [LAT(x, j)])
            yield "in-there[%s]" % v, lambda V, v=v: forall(j, z3.Implies(z3.And(0 <= j, j < V.seq(v, PR)[1]), WANT(x)[V.seq(v, PR)[0][j]]), [V.seq(v, PR)[0][j]])

    def post(self, c, st, ret):
        S = c.eng.enc(st, ret, SET(PR))
        for x in self.upto(S, NL(self.co.t)):
            yield x


class Count(Contract):
    target = E + "count_alignment"
    props = ("C26",)

    def models(self, c):
        def get(eng, st, env, e):
            eng.oblige("same-tag", st, eng.enc(st, env["tag"], STR) == TAG, line(e))
            return [(st, SetV(PR, WANT(eng.enc(st, env["corpus"], CO))))]
        return {"fn:" + E + "get_alignment": get}

    def setup(self, c):
        self.a, self.b = c.term(CO, "true_corpus"), c.term(CO, "pred_corpus")
        return [self.a, self.b, T(STR, TAG)]

    def post(self, c, st, ret):
        items = c.eng.conc_items(st, ret)
        yield "three-counts", z3.BoolVal(items is not None and len(items) == 3)
        if items is None or len(items) != 3:
            return
        a, b = WANT(self.a.t), WANT(self.b.t)
        n = [c.eng.enc(st, x, INT) for x in items]
        C = card_fn(PR)
        yield "true", n[0] == C(a)
        yield "predicted", n[1] == C(b)
        yield "common", n[2] == C(inter_fn(PR)(a, b))


# ----------------------------------------------------------------- a whole evaluation
FN = STR
FILES = TUP(STR, STR)
NPAIRS, PAIRAT = z3.Int("n_pairs"), z3.Const("filename_pairs", arr_sort(FILES))
READ = fun("v_read", S_, CO.sort)
N3 = {x: fun("v_n_" + x, CO.sort, CO.sort, Z) for x in ("true", "pred", "common")}
SC4 = [fun("v_score_%d" % k, Z, Z, Z, R_) for k in range(4)]
at_pair = lambda x, k: N3[x](READ(FILES.get(0, PAIRAT[k])), READ(FILES.get(1, PAIRAT[k])))
TOT = {x: RecFn("v_total_" + x, [Z, Z], lambda F, k, x=x: z3.If(k <= 0, 0, F(k - 1) + at_pair(x, k - 1))) for x in N3}


def terms_of(t, seen=None):
    """all subterms"""
    seen = {} if seen is None else seen
    if z3.is_expr(t) and t.get_id() not in seen:
        seen[t.get_id()] = t
        if z3.is_app(t):
            for x in t.children():
                terms_of(x, seen)
    return seen.values()


def written(eng, st, vs):
    """the terms in the values that are written, each once"""
    seen = {}
    for v in vs:
        for x in v.items if isinstance(v, Tupl) else [v]:
            if isinstance(x, T):
                terms_of(x.t, seen)
    return list(seen.values())


class Evaluate(Contract):
    """every row of the table has the counts and scores of its corpora, the last one the totals"""
    target = E + "eval_alignment"
    props = ("C26",)
    cases = ("labels", "no-labels")

    def models(self, c):
        def count(eng, st, env, e):
            a, b = (eng.enc(st, env[k], CO) for k in ("true_corpus", "pred_corpus"))
            eng.oblige("same-tag", st, eng.enc(st, env["tag"], STR) == TAG, line(e))
            return [(st, Tupl([T(INT, N3[x](a, b)) for x in ("true", "pred", "common")]))]

        def scores(eng, st, env, e):
            a = [eng.enc(st, env[k], INT) for k in ("n_true", "n_pred", "n_common")]
            return [(st, Tupl([T(REAL, f(*a)) for f in SC4]))]

        def read(eng, st, args, kw, e):
            if args or set(kw) != {"file"}:
                raise Unsupported("reading a corpus")
            return [(st, T(CO, READ(eng.enc(st, kw["file"], STR))))]

        def output(eng, st, vs, x):
            rows = [t for t in written(eng, st, vs) if z3.is_app(t) and any(t.decl().eq(f) for f in SC4)]
            if not rows:
                return st
            l = getattr(x, "line", None)
            st = st.copy()
            g = st.mutate(self.ref).fields
            k = g["@rows"].t
            eng.oblige("row-has-all-scores", st, z3.BoolVal(all(any(t.decl().eq(f) for t in rows) for f in SC4) and len(rows) == 4), l)
            for m, n in enumerate(("true", "pred", "common")):
                eng.oblige("row-of-its-pair-or-total:" + n, st, z3.And(*[t.arg(m) == z3.If(k < NPAIRS, at_pair(n, k), TOT[n](NPAIRS)) for t in rows]), l)
            g["@rows"] = T(INT, k + 1)
            return st
        return {"fn:" + E + "count_alignment": count, "fn:" + E + "compute_scores": scores,
                "new:daeso.ptc.document.HitaextDoc": read, "print": output}

    def setup(self, c):
        self.ref = c.obj("daeso.pair.Pair", {})
        c.st.mutate(self.ref).fields["@rows"] = T(INT, z3.IntVal(0))
        c.assume(NPAIRS >= 0)
        args = [c.eng.new_symlist(c.st, FILES, PAIRAT, NPAIRS), T(STR, TAG)]
        if c.case == "labels":
            c.assume(NPAIRS > 0)
            args.append(c.eng.new_symlist(c.st, STR, z3.Const("labels", arr_sort(STR)), NPAIRS))
        return args

    def inv(self, L):
        if L.it is None:
            return
        yield "rows", lambda V: V.st.place(self.ref).fields["@rows"].t == V.k
        yield "no-rows", lambda V: V.st.place(self.ref).fields["@rows"].t == 0
        for v in int_vars(L):
            for n in sorted(TOT):
                yield "total-%s[%s]" % (n, v), lambda V, v=v, n=n: V.t(v) == TOT[n](V.k)

    def post(self, c, st, ret):
        yield "all-rows-and-totals", st.place(self.ref).fields["@rows"].t == NPAIRS + 1


# ----------------------------------------------------------------- differences
NODE = {"TF": OP("TrueFrom"), "TT": OP("TrueTo"), "PF": OP("PredFrom"), "PT": OP("PredTo")}
EL = {k: t.sort for k, t in NODE.items()}
TO = {"TF": "TT", "PF": "PT"}
IDENT = {k: fun("v_id_" + k, EL[k], S_) for k in NODE}
BODY = {k: fun("v_text_" + k, EL[k], S_) for k in NODE}
NEL = z3.Int("v_elements")                                  # with the tag, in either corpus
AT = {k: fun("v_element_" + k, Z, EL[k]) for k in TO}
NAL = {k: fun("v_n_links_" + k, EL[k], Z) for k in TO}
LK = {k: fun("v_link_" + k, EL[k], Z, EL[TO[k]]) for k in TO}
OTHER = {"TF": "PF", "PF": "TF"}
link = lambda s, i, j: LK[s](AT[s](i), j)
nal = lambda s, i: NAL[s](AT[s](i))
ONLY = {s: fun("v_only_" + s, Z, Z, B_) for s in TO}
WIT = {s: fun("v_same_in_other_" + s, Z, Z, Z) for s in TO}
same = lambda s, i, j, m: IDENT[TO[s]](link(s, i, j)) == IDENT[TO[OTHER[s]]](link(OTHER[s], i, m))
CNT = {s: RecFn("v_only_upto_" + s, [Z, Z, Z], lambda F, i, j, s=s: z3.If(j <= 0, 0, F(i, j - 1) + one(ONLY[s](i, j - 1)))) for s in TO}


def cnt_lemmas(s):
    F = CNT[s]
    return [Lemma("v-only-grows-" + s, [Z, Z, Z], lambda i, j, k: F(i, j) + one(ONLY[s](i, j)) <= F(i, k), hyp=lambda i, j, k: z3.And(0 <= j, j < k),
                  measure=lambda i, j, k: k, hints=lambda i, j, k: [(i, j, k - 1)], extra=lambda i, j, k: [F(i, j) == F.f0(i, j), F(i, k - 1) == F.f0(i, k - 1)],
                  pats=lambda i, j, k: [z3.MultiPattern(F.f0(i, j), F.f(i, k))], lim=lambda i, j, k: F.f0(i, j) + one(ONLY[s](i, j)) <= F.f0(i, k)),
            Lemma("v-only-positive-" + s, [Z, Z], lambda i, k: F(i, k) >= 0, measure=lambda i, k: k, hyp=lambda i, k: k >= 0, hints=lambda i, k: [(i, k - 1)],
                  extra=lambda i, k: [F(i, k - 1) == F.f0(i, k - 1)], pats=lambda i, k: [F.f(i, k)], lim=lambda i, k: F.f0(i, k) >= 0)]


DIFF_LEMMAS = cnt_lemmas("TF") + cnt_lemmas("PF")
BEFORE = RecFn("v_differences", [Z, Z], lambda F, i: z3.If(i <= 0, 0, F(i - 1) + CNT["TF"](i - 1, nal("TF", i - 1)) + CNT["PF"](i - 1, nal("PF", i - 1))))
BGROW = Lemma("v-differences-grow", [Z, Z], lambda j, k: BEFORE(j) + CNT["TF"](j, nal("TF", j)) + CNT["PF"](j, nal("PF", j)) <= BEFORE(k), hyp=lambda j, k: z3.And(
    0 <= j, j < k), measure=lambda j, k: k, hints=lambda j, k: [(j, k - 1)],
    extra=lambda j, k: [BEFORE(j) == BEFORE.f0(j), BEFORE(k - 1) == BEFORE.f0(k - 1)] + [CNT[s](k - 1, nal(s, k - 1)) >= 0 for s in TO],
    pats=lambda j, k: [z3.MultiPattern(BEFORE.f0(j), BEFORE.f(k))],
    lim=lambda j, k: BEFORE.f0(j) + CNT["TF"].f0(j, nal("TF", j)) + CNT["PF"].f0(j, nal("PF", j)) <= BEFORE.f0(k))
SPOT = {s: fun("v_spot_" + s, Z, Z, Z) for s in TO}         # where in the report a difference comes
WITHIN = {s: Lemma("v-within-" + s, [Z, Z], lambda i, j, s=s: z3.And(CNT[s](i, j) + one(ONLY[s](i, j)) <= CNT[s](i, nal(s, i)), CNT[OTHER[s]](i, nal(OTHER[s], i)) >= 0, CNT[s](i, j) >= 0),
                   hyp=lambda i, j, s=s: z3.And(0 <= j, j < nal(s, i), nal(OTHER[s], i) >= 0), uses=DIFF_LEMMAS, pats=lambda i, j, s=s: [SPOT[s](i, j)]) for s in TO}
EV = {"side": Ty("arr", INT, INT), "i": Ty("arr", INT, INT), "j": Ty("arr", INT, INT)}
EVT = {k: Ty("arr", INT, t) for k, t in NODE.items()}


class DocTree(object):
    def getattr(self, eng, st, v, name, e):
        if name == "tagCountTable":
            return [(st, ModelV(TagTable(), side=v.side))]
        if name == "get_elem_text":
            return [(st, ModelV(TextOf(), side=v.side))]
        raise Unsupported("attribute %s of a text" % name)


class TextOf(object):
    def call(self, eng, st, v, args, kw, e):
        if len(args) != 1 or kw:
            raise Unsupported("arguments of get_elem_text")
        return [(st, T(STR, BODY[v.side](eng.enc(st, args[0], NODE[v.side]))))]


class TagTable(object):
    def getitem(self, eng, st, v, i, e):
        eng.oblige("elements-with-the-tag", st, eng.enc(st, i, STR) == TAG, line(e))
        return [(st, ModelV(Elems(), side=v.side))]


class Elems(object):
    has_iter = True

    def zlen(self, eng, st, v):
        return NEL

    def iterate(self, eng, st, v):
        f = AT[v.side]
        return [(st, It(NEL, lambda k: T(NODE[v.side], f(k)), None, v, "elements", key=f))]


class ElemGet(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name != "get" or len(args) != 1 or kw or not isinstance(args[0], PStr):
            raise Unsupported("attribute of an element")
        k = args[0].s
        if k == "id":
            return [(st, T(STR, IDENT[v.side](v.el)))]
        if k == "_alignments" and v.side in TO:
            return [(st, ModelV(Aligned(), side=v.side, el=v.el))]
        raise Unsupported("attribute %s of an element" % k)


class Aligned(object):
    has_iter = True

    def zlen(self, eng, st, v):
        return NAL[v.side](v.el)

    def truth(self, eng, st, v):
        return [(st, NAL[v.side](v.el) > 0)]

    def iterate(self, eng, st, v):
        f = lambda k: LK[v.side](v.el, k)
        return [(st, It(NAL[v.side](v.el), lambda k: T(NODE[TO[v.side]], f(k)), None, v, v.side, key=f))]


class Differences(Contract):
    """both corpora have the same texts, so as many elements with the tag; elements have ids"""
    eager = tuple(TO)
    target = D + "print_diff"
    props = ("C26",)

    def models(self, c):
        def read(eng, st, env, e):
            s = "T" if env["corpus"].t.eq(self.given[0].t) else "P" if env["corpus"].t.eq(self.given[1].t) else None
            if s is None:
                raise Unsupported("corpus")
            return [(st, Tupl([env["corpus"], ModelV(DocTree(), side=s + "F"), ModelV(DocTree(), side=s + "T")]))]

        def output(eng, st, vs, x):
            ts = written(eng, st, vs)
            ids = {k: [t.arg(0) for t in ts if z3.is_app(t) and t.decl().eq(IDENT[k])] for k in NODE}
            l = getattr(x, "line", None)
            if not any(ids.values()):
                return st
            sides = [s for s in TO if ids[s] or ids[TO[s]]]
            ok = len(sides) == 1 and len(ids[sides[0]]) == len(ids[TO[sides[0]]]) == 1
            eng.oblige("difference-names-a-link", st, z3.BoolVal(ok), l)
            if not ok:
                return st
            s, = sides
            st = st.copy()
            g = st.mutate(self.ref).fields
            n = g["@n"].t
            numbers = [v for v in vs if isinstance(v, T)]
            shown = [t for v in numbers for t in terms_of(v.t) if t.sort() == Z]
            eng.oblige("difference-has-its-number", st, z3.Or(*[t == n + 1 for t in shown]) if shown else z3.BoolVal(False), l)
            g["@side"] = T(EV["side"], z3.Store(g["@side"].t, n, z3.IntVal(sorted(TO).index(s))))
            for k in (s, TO[s]):
                g["@" + k] = T(EVT[k], z3.Store(g["@" + k].t, n, ids[k][0]))
            g["@n"] = T(INT, n + 1)
            return st
        m = {"attr:" + t.key: (lambda eng, st, v, name, e, k=k: [(st, ModelV(ElemGet(), side=k, el=v.t, name=name))]) for k, t in NODE.items()}
        m.update({"fn:" + D + "read_corpus": read, "print": output})
        return m

    def setup(self, c):
        for l in DIFF_LEMMAS + [BGROW] + list(WITHIN.values()):
            l.use()
        i, j, m = z3.Int("i"), z3.Int("j"), z3.Int("m")
        self.given = [c.term(CO, "true_corpus"), c.term(CO, "pred_corpus")]
        c.assume(NEL >= 0)
        for s in TO:
            x = z3.Const("x" + s, EL[s])
            ok = z3.And(0 <= j, j < nal(s, i))
            w = WIT[s](i, j)
            o = OTHER[s]
            c.assume(forall(x, NAL[s](x) >= 0, [NAL[s](x)]),
                     forall([i, j, m], z3.Implies(z3.And(ONLY[s](i, j), 0 <= m, m < nal(o, i)), z3.Not(same(s, i, j, m))), [z3.MultiPattern(ONLY[s](i, j), link(o, i, m))]),
                     forall([i, j], z3.Implies(z3.Not(ONLY[s](i, j)), z3.And(0 <= w, w < nal(o, i), same(s, i, j, w))), [ONLY[s](i, j)]),
                     forall([i, j], SPOT[s](i, j) == BEFORE(i) + CNT[s](i, j) + (CNT["TF"](i, nal("TF", i)) if s == "PF" else 0), [SPOT[s](i, j)]))
        self.ref = c.obj("daeso.pair.Pair", {})
        g = c.st.mutate(self.ref).fields
        g["@n"] = T(INT, z3.IntVal(0))
        g["@side"] = T(EV["side"], z3.Const("old_side", EV["side"].sort))
        for k in NODE:
            g["@" + k] = T(EVT[k], z3.Const("old_" + k, EVT[k].sort))
        return self.given + [T(STR, TAG)]

    def report(self, st, k, done):
        """the differences of the first k elements, and of the first done[s] links of the next"""
        g = {n: st.place(self.ref).fields["@" + n].t for n in ["n", "side"] + sorted(NODE)}
        i, j = z3.Int("i"), z3.Int("j")
        yield "number", g["n"] == BEFORE(k) + sum(CNT[s](k, done[s]) for s in TO)
        for s in sorted(TO):
            at = SPOT[s](i, j)
            some = z3.Or(z3.And(0 <= i, i < k, 0 <= j, j < nal(s, i)), z3.And(i == k, 0 <= j, j < done[s]))
            yield "reported-" + s, forall([i, j], z3.Implies(z3.And(some, ONLY[s](i, j)), z3.And(
                g["side"][at] == sorted(TO).index(s), g[s][at] == AT[s](i), g[TO[s]][at] == link(s, i, j))), [SPOT[s](i, j)])

    def inv(self, L):
        if L.it is None:
            return
        labs = ("number", "reported-PF", "reported-TF")
        for v in int_vars(L):
            yield "number-given[%s]" % v, lambda V, v=v: V.t(v) == V.st.place(self.ref).fields["@n"].t
        zero = {s: z3.IntVal(0) for s in TO}
        if L.outer is None:
            for m, lab in enumerate(labs):
                yield lab, lambda V, m=m: list(self.report(V.st, V.k, zero))[m][1]
            return
        if L.it.kind not in TO:
            return
        if L.outer.outer is None:
            k, s = L.outer.k, L.it.kind
            done = lambda j: {"TF": j, "PF": z3.IntVal(0)} if s == "TF" else {"TF": nal("TF", k), "PF": j}
            for m, lab in enumerate(labs):
                yield lab, lambda V, m=m: list(self.report(V.st, k, done(V.k)))[m][1]
        else:
            k, j, o = L.outer.outer.k, L.outer.k, L.it.kind
            m = z3.Int("m")
            yield "none-the-same", lambda V: forall(m, z3.Implies(z3.And(0 <= m, m < V.k), z3.Not(same(OTHER[o], k, j, m))), [link(o, k, m)])

    def post(self, c, st, ret):
        zero = {s: z3.IntVal(0) for s in TO}
        for x in self.report(st, NEL, zero):
            yield x


def one_of(a, b):
    return isinstance(a, Ref) and isinstance(b, Ref) and a.pid == b.pid


class Read(Contract):
    target = D + "read_corpus"
    props = ("C26",)
    cases = ("document", "filename")

    def models(self, c):
        X = "daeso.ptc.document.HitaextDoc"
        T_ = "daeso.ptc.ielemtree.IndexElemTree"

        def read(eng, st, args, kw, e):
            if args or set(kw) != {"file"}:
                raise Unsupported("reading a corpus")
            eng.oblige("file-given", st, z3.BoolVal(c.case == "filename" and kw["file"] is self.given), line(e))
            return [(st, self.doc)]

        def tree(eng, st, env, e):
            s = env["side"].s if isinstance(env["side"], PStr) else None
            if s not in ("from", "to") or not one_of(env["self"], self.doc):
                raise Unsupported("side of a text")
            return [(st, self.trees[s])]

        def update(eng, st, env, e):
            # the settings of the document do not matter here
            st = st.copy()
            st.mutate(env["self"]).fields["@updated"] = T(BOOL, z3.BoolVal(True))
            return [(st, NONE)]

        def inject(eng, st, env, e):
            ok = all(one_of(*x) for x in ((env["self"], self.doc), (env["from_tree"], self.trees["from"]), (env["to_tree"], self.trees["to"])))
            st = st.copy()
            g = st.mutate(self.doc).fields
            eng.oblige("links-of-the-texts", st, z3.And(z3.BoolVal(ok), z3.Not(g["@injected"].t), *[st.place(t).fields["@updated"].t for t in self.trees.values()]), line(e))
            g["@injected"] = T(BOOL, z3.BoolVal(True))
            return [(st, NONE)]
        return {"new:" + X: read, "fn:" + X + ".get_doc_tree": tree, "fn:" + T_ + ".update": update, "fn:" + X + ".inject_alignments": inject}

    def setup(self, c):
        flag = lambda r, n: c.st.mutate(r).fields.__setitem__("@" + n, T(BOOL, z3.BoolVal(False)))
        self.doc = c.obj("daeso.ptc.document.HitaextDoc", {})
        flag(self.doc, "injected")
        self.trees = {s: c.obj("daeso.ptc.ielemtree.IndexElemTree", {}) for s in ("from", "to")}
        for t in self.trees.values():
            flag(t, "updated")
        self.given = self.doc if c.case == "document" else c.term(STR, "filename")
        return [self.given]

    def post(self, c, st, ret):
        items = c.eng.conc_items(st, ret)
        yield "document-and-texts", z3.BoolVal(items is not None and len(items) == 3 and all(map(one_of, items, [self.doc, self.trees["from"], self.trees["to"]])))
        yield "alignments-of-its-links", st.place(self.doc).fields["@injected"].t


CONTRACTS = [Read, Scores, Alignment, Count, Evaluate, Differences]
LEMMAS = [GROWS] + DIFF_LEMMAS + [BGROW] + [WITHIN[s] for s in sorted(WITHIN)]
