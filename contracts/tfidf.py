"""term weights"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun, exists, enum_fn, elems_fn, card_fn, LOG, log_ax
from pyvc.spec import *
from pyvc.verify import Contract

E = ELEM.sort
A = arr_sort(ELEM)
Z = z3.IntSort()
R_ = z3.ToReal
TF = DICT(ELEM, INT)
ATF = arr_sort(TF)
DOC = SEQ(ELEM)
ADOC = arr_sort(DOC)

# occurrences of x in a[:n]
OCN = RecFn("OCN", [A, Z, E, Z], lambda F, a, n, x: z3.If(
    n <= 0, 0, F(a, n - 1, x) + z3.If(a[n - 1] == x, 1, 0)))
OCN0 = Lemma("occurrences_not_negative", [A, Z, E], lambda a, n, x: z3.And(
    OCN(a, n, x) >= 0, OCN(a, n, x) <= n), hyp=lambda a, n, x: n >= 0,
    measure=lambda a, n, x: n,
    hints=lambda a, n, x: [(a, n - 1, x)], pats=lambda a, n, x: [OCN(a, n, x)])
# among the first m tables, those with an entry for t
DF = RecFn("DF", [ATF, Z, E, Z], lambda F, a, m, t: z3.If(
    m <= 0, 0, F(a, m - 1, t) + z3.If(TF.get(0, a[m - 1])[t], 1, 0)))
DF0 = Lemma("document_frequency_bounded", [ATF, Z, E], lambda a, m, t: z3.And(
    DF(a, m, t) >= 0, DF(a, m, t) <= m), hyp=lambda a, m, t: m >= 0, measure=lambda a, m, t: m,
    hints=lambda a, m, t: [(a, m - 1, t)], pats=lambda a, m, t: [DF(a, m, t)])


def docs_ok(D):
    q = z3.Int("gq")
    return forall(q, DOC.get(1, D[q]) >= 0, [D[q]])


# occurrences of t in the first m documents
TOC = RecFn("TOC", [ADOC, Z, E, Z], lambda F, a, m, t: z3.If(
    m <= 0, 0, F(a, m - 1, t) + OCN(DOC.get(0, a[m - 1]), DOC.get(1, a[m - 1]), t)))
TOC0 = Lemma("collection_frequency_not_negative", [ADOC, Z, E], lambda a, m, t: TOC(a, m, t) >= 0,
             hyp=lambda a, m, t: z3.And(m >= 0, docs_ok(a)), measure=lambda a, m, t: m, uses=[OCN0],
             hints=lambda a, m, t: [(a, m - 1, t)], pats=lambda a, m, t: [TOC(a, m, t)])
# among the first m documents, those with t
DOCF = RecFn("DOCF", [ADOC, Z, E, Z], lambda F, a, m, t: z3.If(
    m <= 0, 0, F(a, m - 1, t) + z3.If(OCN(DOC.get(0, a[m - 1]), DOC.get(1, a[m - 1]), t) > 0, 1, 0)))
DOCF0 = Lemma("documents_with_term", [ADOC, Z, E], lambda a, m, t: z3.And(
    DOCF(a, m, t) >= 0, DOCF(a, m, t) <= m, (TOC(a, m, t) > 0) == (DOCF(a, m, t) > 0)),
    hyp=lambda a, m, t: z3.And(m >= 0, docs_ok(a)), measure=lambda a, m, t: m, uses=[OCN0, TOC0],
    hints=lambda a, m, t: [(a, m - 1, t)], pats=lambda a, m, t: [DOCF(a, m, t)])


def tabs_ok(T_, D, m):
    t, q = z3.Const("t", E), z3.Int("q")
    return forall([q, t], z3.Implies(z3.And(0 <= q, q < m), TF.get(0, T_[q])[t] == (
        OCN(DOC.get(0, D[q]), DOC.get(1, D[q]), t) > 0)), [TF.get(0, T_[q])[t]])


DFEQ = Lemma("tables_count_documents", [ATF, ADOC, Z, Z, E],
             lambda T_, D, n, m, t: DF(T_, m, t) == DOCF(D, m, t),
             hyp=lambda T_, D, n, m, t: z3.And(0 <= m, m <= n, tabs_ok(T_, D, n)),
             measure=lambda T_, D, n, m, t: m, hints=lambda T_, D, n, m, t: [(T_, D, n, m - 1, t)])
LEMMAS = [OCN0, DF0, TOC0, DOCF0, DFEQ]


def rank(dom, t):
    enum_fn(ELEM)
    return fun("enum_idx_Elem" if False else "enum_idx_" + ELEM.key, SET(ELEM).sort, E, Z)(dom, t)


class DocFreq(Contract):
    target = "daeso.string.tf_idf.calculate_document_frequencies"
    props = ("C08",)
    cases = ("list",)

    def setup(self, c):
        s = c.seq("tables", TF)
        self.D, self.n = c.eng.as_arr(c.st, s)
        DF(self.D, self.n, z3.Const("t0", E))
        DF0.use()
        return [s]

    def inv(self, L):
        t = z3.Const("t", E)
        for d in changed_dicts(L, ELEM, INT):
            if L.outer is None:
                F = lambda V, t: DF(self.D, V.k, t)
            else:
                dom = TF.get(0, self.D[L.outer.k])
                F = lambda V, t, dom=dom: DF(self.D, L.outer.k, t) + z3.If(
                    z3.And(dom[t], rank(dom, t) < V.k), 1, 0)
            yield "counted-so-far[%s]" % d, lambda V, d=d, F=F: forall(
                t, z3.And(V.dic(d, ELEM, INT)[0][t] == (F(V, t) > 0), z3.Implies(
                    V.dic(d, ELEM, INT)[0][t], V.dic(d, ELEM, INT)[1][t] == F(V, t))),
                [V.dic(d, ELEM, INT)[0][t], V.dic(d, ELEM, INT)[1][t]])

    def post(self, c, st, ret):
        t = z3.Const("t", E)
        dom, mp = c.eng.as_dict(st, ret, ELEM, INT)
        yield "terms-are-those-of-the-tables", forall(
            t, dom[t] == (DF(self.D, self.n, t) > 0), [dom[t]])
        yield "counts-the-tables-with-the-term", forall(t, z3.Implies(
            dom[t], mp[t] == DF(self.D, self.n, t)), [mp[t]])

    def apply(self, eng, st, env, e):
        D, n = eng.as_arr(st, env["term_freq_per_doc"], TF)
        st = st.copy()
        DF0.use()
        t = z3.Const("t", E)
        p = DictP(kty=ELEM, vty=INT, dom=z3.Const(fresh_name("dfdom"), SET(ELEM).sort),
                  mp=z3.Const(fresh_name("dfmap"), z3.ArraySort(E, Z)))
        st.assume(forall(t, p.dom[t] == (DF(D, n, t) > 0), [p.dom[t]]))
        st.assume(forall(t, z3.Implies(p.dom[t], p.mp[t] == DF(D, n, t)), [p.mp[t]]))
        return [(st, st.alloc(p))]


class TermFreq(Contract):
    target = "daeso.string.tf_idf.calculate_term_frequencies"
    props = ("C08",)
    cases = ("list",)

    def setup(self, c):
        s = c.seq("docs", DOC)
        self.D, self.n = c.eng.as_arr(c.st, s)
        c.assume(docs_ok(self.D))
        OCN0.use()
        TOC0.use()
        return [s]

    def inv(self, L):
        t, q, p = z3.Const("t", E), z3.Int("q"), z3.Int("p")
        D = self.D
        cur = None if L.outer is None else D[L.outer.k]
        for d in changed_dicts(L, ELEM, INT):
            if cur is not None:
                F = lambda V, t: OCN(DOC.get(0, cur), V.k, t)
                yield "counts-of-document[%s]" % d, lambda V, d=d, F=F: forall(
                    t, z3.And(V.dic(d, ELEM, INT)[0][t] == (F(V, t) > 0), z3.Implies(
                        V.dic(d, ELEM, INT)[0][t], V.dic(d, ELEM, INT)[1][t] == F(V, t))),
                    [V.dic(d, ELEM, INT)[0][t], V.dic(d, ELEM, INT)[1][t]])
        for d in changed_dicts(L, ELEM, BOOL) + changed_sets(L, ELEM):
            g = (lambda V, d=d: V.set(d, ELEM)) if d in changed_sets(L, ELEM) else (
                lambda V, d=d: V.dic(d, ELEM, BOOL)[0])
            H = (lambda V, t: TOC(D, V.k, t)) if cur is None else (
                lambda V, t: TOC(D, L.outer.k, t) + OCN(DOC.get(0, cur), V.k, t))
            yield "terms-so-far[%s]" % d, lambda V, g=g, H=H: forall(
                t, g(V)[t] == (H(V, t) > 0), [g(V)[t]])
        for s in changed_lists(L, TF):
            if cur is None:
                yield "one-table-per-document[%s]" % s, lambda V, s=s: V.seq(s, TF)[1] == V.k
                yield "tables[%s]" % s, lambda V, s=s: self.tables_ok(*V.seq(s, TF))

    def tables_ok(self, arr, m):
        t, q = z3.Const("t", E), z3.Int("q")
        D = self.D
        x = arr[q]
        d = TF.get(0, x)[t]
        n = OCN(DOC.get(0, D[q]), DOC.get(1, D[q]), t)
        return forall([q, t], z3.Implies(z3.And(0 <= q, q < m), z3.And(
            d == (n > 0), z3.Implies(d, TF.get(1, x)[t] == n))), [d, TF.get(1, x)[t]])

    def post(self, c, st, ret):
        terms, tabs = (c.eng.as_arr(st, x, y) for x, y in zip(ret.items, (ELEM, TF)))
        for x in terms_post(c.eng, st, self.D, self.n, *terms):
            yield x
        yield "one-table-per-document", tabs[1] == self.n
        yield "counts-of-each-document", self.tables_ok(*tabs)

    def apply(self, eng, st, env, e):
        D, n = eng.as_arr(st, env["terms_per_doc"], DOC)
        st = st.copy()
        OCN0.use()
        TOC0.use()
        self = TermFreq()
        self.D, self.n = D, n
        arr, m = z3.Const(fresh_name("terms"), A), z3.Int(fresh_name("nterms"))
        tabs = z3.Const(fresh_name("tabs"), ATF)
        st.assume(m >= 0)
        for _, f in terms_post(eng, st, D, n, arr, m):
            st.assume(f)
        st.assume(self.tables_ok(tabs, n))
        t = z3.Const("t", E)
        st.assume(forall(t, DFEQ.inst(tabs, D, n, n, t), [DF(tabs, n, t)]))
        DOCF0.use()
        return [(st, Tupl([eng.new_symlist(st, ELEM, arr, m), eng.new_symlist(st, TF, tabs, n)]))]


def terms_post(eng, st, D, n, arr, m):
    i, j, t = z3.Int("i"), z3.Int("j"), z3.Const("t", E)
    le = lambda x, y: zbool(eng.less(st, T(ELEM, x), T(ELEM, y), True))
    yield "terms-are-those-that-occur", forall(
        t, elems_fn(ELEM)(arr, m)[t] == (TOC(D, n, t) > 0), [TOC(D, n, t), elems_fn(ELEM)(arr, m)[t]])
    yield "terms-are-sorted", forall([i, j], z3.Implies(z3.And(
        0 <= i, i < j, j < m), z3.And(arr[i] != arr[j], le(arr[i], arr[j]))),
        [z3.MultiPattern(arr[i], arr[j])])


ROW = SEQ(REAL)


class Idf(Contract):
    target = "daeso.string.tf_idf.idf"
    props = ("C08",)
    cases = ("plain", "normalized", "default")

    def setup(self, c):
        s = c.seq("docs", DOC)
        self.D, self.n = c.eng.as_arr(c.st, s)
        c.assume(docs_ok(self.D))
        TH.add("log", log_ax)
        DOCF0.use()
        self.norm = c.case.startswith("normalized")
        return self.args(c, s)

    def args(self, c, s):
        if c.case == "default":
            return [s]
        return [s, T(BOOL, z3.BoolVal(self.norm))]

    def idf(self, t):
        n = R_(self.n)
        v = LOG(n / R_(DOCF(self.D, self.n, t)))
        if self.norm:
            return v / z3.If(n > 1, LOG(n), z3.RealVal(1))
        return v

    def weight(self, q, t):
        return self.idf(t)

    def inv(self, L):
        i, q = z3.Ints("i q")
        for ts in all_lists(L, ELEM):
            for s in changed_lists(L, ROW):
                if L.outer is not None:
                    continue
                yield "one-row-per-document[%s]" % s, lambda V, s=s: V.seq(s, ROW)[1] == V.k

                def rows(V, s=s, ts=ts):
                    a, n = V.seq(s, ROW)
                    t, m = V.seq(ts, ELEM)
                    return forall([q, i], z3.Implies(
                        z3.And(0 <= q, q < V.k, 0 <= i, i < m),
                        ROW.get(0, a[q])[i] == self.weight(q, t[i])), [ROW.get(0, a[q])[i]])

                def lens(V, s=s, ts=ts):
                    a, n = V.seq(s, ROW)
                    t, m = V.seq(ts, ELEM)
                    return forall(q, z3.Implies(z3.And(0 <= q, q < V.k), ROW.get(1, a[q]) == m), [a[q]])
                yield "weights[%s,%s]" % (s, ts), rows
                yield "one-weight-per-term[%s,%s]" % (s, ts), lens
            for s in changed_lists(L, REAL):
                if L.outer is None:
                    continue
                yield "one-weight-per-term-so-far[%s]" % s, lambda V, s=s: V.seq(s, REAL)[1] == V.k
                yield "weights-so-far[%s,%s]" % (s, ts), lambda V, s=s, ts=ts: forall(
                    i, z3.Implies(z3.And(0 <= i, i < V.k), V.seq(s, REAL)[0][i] == self.weight(
                        L.outer.k, V.seq(ts, ELEM)[0][i])), [V.seq(s, REAL)[0][i]])

    def post(self, c, st, ret):
        (t, m), (w, n) = (c.eng.as_arr(st, x, y) for x, y in zip(ret.items, (ELEM, ROW)))
        i, q = z3.Ints("i q")
        for x in terms_post(c.eng, st, self.D, self.n, t, m):
            yield x
        yield "one-row-per-document", n == self.n
        yield "one-weight-per-term", forall(q, z3.Implies(z3.And(0 <= q, q < n), ROW.get(1, w[q]) == m),
                                            [w[q]])
        yield "weights", forall([q, i], z3.Implies(
            z3.And(0 <= q, q < n, 0 <= i, i < m), ROW.get(0, w[q])[i] == self.weight(q, t[i])),
            [ROW.get(0, w[q])[i]])


class TfIdf(Idf):
    target = "daeso.string.tf_idf.tf_idf"
    cases = ("plain", "normalized", "default", "plain-indicator", "normalized-indicator")

    def args(self, c, s):
        if c.case == "default":
            return [s]
        a = [s, T(BOOL, z3.BoolVal(self.norm))]
        if "indicator" in c.case:
            a.append(T(BOOL, z3.BoolVal(True)))
        self.ind = "indicator" in c.case
        return a

    ind = False

    def weight(self, q, t):
        a, n = DOC.get(0, self.D[q]), DOC.get(1, self.D[q])
        k = OCN(a, n, t)
        if self.ind:
            tf = z3.If(elems_fn(ELEM)(a, n)[t], z3.RealVal(1), z3.RealVal(0))
        else:
            tf = z3.If(n == 0, z3.RealVal(0), R_(k) / R_(n))
        return tf * self.idf(t)


CONTRACTS = [DocFreq, TermFreq, Idf, TfIdf]
