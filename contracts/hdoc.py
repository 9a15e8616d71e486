"""Hitaext documents: alignments of elements to and from the links of a document"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort, TH
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import line

M = "daeso.ptc.document.HitaextDoc."
S_, Z, B_ = STR.sort, z3.IntSort(), z3.BoolSort()
LINK = OP("Link")
SIDES = ("from", "to")
NODE = {s: OP("Elem_" + s) for s in SIDES}
E_ = {s: NODE[s].sort for s in SIDES}
OTHER = {"from": "to", "to": "from"}
ATTRS = ("from_tag", "from_n", "from_id", "to_tag", "to_n", "to_id")
GIVEN = {a: fun("k_" + a, LINK.sort, S_) for a in ATTRS}
NLINKS, LINKAT = z3.Int("k_links"), fun("k_link", Z, LINK.sort)
TAGS = {s: z3.Const("k_tags_" + s, SET(STR).sort) for s in SIDES}
COUNT = {s: fun("k_count_" + s, S_, Z) for s in SIDES}
ENTRY = {s: fun("k_entry_" + s, S_, Z, E_[s]) for s in SIDES}
HASID = {s: fun("k_has_id_" + s, S_, S_, B_) for s in SIDES}
BYID = {s: fun("k_by_id_" + s, S_, S_, E_[s]) for s in SIDES}
TAG = {s: fun("k_tag_" + s, E_[s], S_) for s in SIDES}
NTH = {s: fun("k_nth_" + s, E_[s], Z) for s in SIDES}
IDENT = {s: fun("k_id_" + s, E_[s], S_) for s in SIDES}
END = {s: fun("k_end_" + s, LINK.sort, E_[s]) for s in SIDES}      # the element at an end of a link
AT = {s: TUP(NODE[s], INT) for s in SIDES}
NA = {s: Ty("arr", NODE[s], INT) for s in SIDES}
LA = {s: Ty("arr", AT[s], NODE[OTHER[s]]) for s in SIDES}
toint, isint, tostr = fun("int_of_str", S_, Z), fun("is_int_str", S_, B_), fun("str_of_" + INT.key, Z, S_)
one = lambda b: z3.If(b, 1, 0)


def upto(side):
    return RecFn("k_upto_" + side, [E_[side], Z, Z],
                 lambda F, x, k: z3.If(k <= 0, 0, F(x, k - 1) + one(END[side](LINKAT(k - 1)) == x)))


UPTO = {s: upto(s) for s in SIDES}                                  # links of an element among the first k


def ordered(side):
    U = UPTO[side]
    return Lemma("k-links-in-order-" + side, [E_[side], Z, Z], lambda x, j, k: U(x, j) + one(END[side](LINKAT(j)) == x) <= U(x, k),
                 hyp=lambda x, j, k: z3.And(0 <= j, j < k), measure=lambda x, j, k: k, hints=lambda x, j, k: [(x, j, k - 1)],
                 extra=lambda x, j, k: [U(x, k) == U.f0(x, k - 1) + one(END[side](LINKAT(k - 1)) == x), U(x, j) == U.f0(x, j),
                                        U(x, k - 1) == U.f0(x, k - 1)],
                 pats=lambda x, j, k: [z3.MultiPattern(U.f0(x, j), U.f(x, k))], lim=lambda x, j, k: U.f0(x, j) + one(END[side](LINKAT(j)) == x) <= U.f0(x, k))


def positive(side):
    U = UPTO[side]
    return Lemma("k-links-positive-" + side, [E_[side], Z], lambda x, k: U(x, k) >= 0, measure=lambda x, k: k,
                 hyp=lambda x, k: k >= 0, hints=lambda x, k: [(x, k - 1)],
                 extra=lambda x, k: [U(x, k - 1) == U.f0(x, k - 1)], pats=lambda x, k: [U.f(x, k)], lim=lambda x, k: U.f0(x, k) >= 0)


ORDER, POS = {s: ordered(s) for s in SIDES}, {s: positive(s) for s in SIDES}


class Table(object):
    """tagCountTable or tagIdTable of a side"""

    def getitem(self, eng, st, v, i, e):
        t = eng.enc(st, i, STR)
        return [(s, ModelV(OfTag(), side=v.side, tag=t, ids=v.ids) if b else Exc("KeyError", i, line(e)))
                for s, b in eng.split(st, TAGS[v.side][t])]

    def contains(self, eng, st, v, x):
        return [(st, TAGS[v.side][eng.enc(st, x, STR)])]


class OfTag(object):
    def zlen(self, eng, st, v):
        return COUNT[v.side](v.tag)

    def getitem(self, eng, st, v, i, e):
        if v.ids:
            i = eng.enc(st, i, STR)
            return [(s, T(NODE[v.side], BYID[v.side](v.tag, i)) if b else Exc("KeyError", None, line(e)))
                    for s, b in eng.split(st, HASID[v.side](v.tag, i))]
        n = eng.num(st, i)
        return [(s, j if isinstance(j, Exc) else T(NODE[v.side], ENTRY[v.side](v.tag, j)))
                for s, j in eng.index_cases(st, n, COUNT[v.side](v.tag), line(e))]


class Links(object):
    """the list of alignments of an element"""
    has_iter = True

    def zlen(self, eng, st, v):
        return st.place(v.con.ref).fields["@n." + v.side].t[v.el]

    def at(self, st, v, i):
        return T(NODE[OTHER[v.side]], st.place(v.con.ref).fields["@link." + v.side].t[AT[v.side].mk(v.el, i)])

    def iterate(self, eng, st, v):
        return [(st, It(self.zlen(eng, st, v), lambda k: self.at(st, v, k), None, v, "links", key=lambda k: self.at(st, v, k).t))]

    def truth(self, eng, st, v):
        return [(st, self.zlen(eng, st, v) > 0)]

    def method(self, eng, st, v, name, args, kw, e):
        if name != "append":
            raise Unsupported("links." + name)
        st = st.copy()
        n = self.zlen(eng, st, v)
        g, s = st.mutate(v.con.ref).fields, v.side
        g["@link." + s] = T(LA[s], z3.Store(g["@link." + s].t, AT[s].mk(v.el, n), eng.enc(st, args[0], NODE[OTHER[s]])))
        g["@n." + s] = T(NA[s], z3.Store(g["@n." + s].t, v.el, n + 1))
        return [(st, NONE)]


class Get(object):
    def __init__(self, con):
        self.con = con

    def call(self, eng, st, v, args, kw, e):
        if v.name != "get" or not isinstance(args[0], PStr):
            raise Unsupported("method %s of an element" % v.name)
        k = args[0].s
        if v.side is None:
            if k in GIVEN:
                return [(st, T(STR, GIVEN[k](v.el)))]
        elif k == "_alignments":
            return [(st, ModelV(Links(), con=self.con, side=v.side, el=v.el))]
        elif k == "_n":
            return [(st, T(INT, NTH[v.side](v.el)))]
        elif k == "id":
            return [(st, T(STR, IDENT[v.side](v.el)))]
        raise Unsupported("attribute " + k)


class Section(object):
    """the alignment section"""
    has_iter = True

    def iterate(self, eng, st, v):
        return [(st, It(NLINKS, lambda k: T(LINK, LINKAT(k)), None, v, "links", key=lambda k: LINKAT(k)))]

    def method(self, eng, st, v, name, args, kw, e):
        if name == "get" and isinstance(args[0], PStr) and args[0].s == "method":
            return [(st, v.con.how)]
        if name == "append" and isinstance(args[0], ModelV) and isinstance(args[0].model, New):
            el = args[0]
            st = st.copy()
            g = st.mutate(v.con.ref).fields
            n = g["@out"].t
            for a in ATTRS:
                g["@has." + a] = T(HASA, z3.Store(g["@has." + a].t, n, z3.BoolVal(a in el.attrs)))
                if a in el.attrs:
                    g["@out." + a] = T(OUTA, z3.Store(g["@out." + a].t, n, el.attrs[a]))
            g["@out.tag"] = T(OUTA, z3.Store(g["@out.tag"].t, n, el.tag))
            g["@out"] = T(INT, n + 1)
            return [(st, NONE)]
        raise Unsupported("alignment." + name)

    def setitem(self, eng, st, v, i, x, e):
        if not isinstance(i, SliceV) or i.lo is not None or i.hi is not None or i.step is not None or eng.conc_items(st, x) != []:
            raise Unsupported("assignment to the section")
        st = st.copy()
        st.mutate(v.con.ref).fields["@out"] = T(INT, z3.IntVal(0))
        return [(st, None)]


class New(object):
    """an element made by Element"""


OUTA, HASA = Ty("arr", INT, STR), Ty("arr", INT, BOOL)


class Doc(Contract):
    props = ("C24",)

    def models(self, c):
        get = Get(self)
        m = {}

        def attr(side):
            def f(eng, st, v, name, e):
                if name == "tag" and side:
                    return [(st, T(STR, TAG[side](v.t)))]
                return [(st, ModelV(get, el=v.t, name=name, side=side))]
            return f
        for s in SIDES:
            m["attr:" + NODE[s].key] = attr(s)
        m["attr:" + LINK.key] = attr(None)

        def element(eng, st, args, kw, e):
            if len(args) != 1 or not set(kw) <= set(ATTRS):
                raise Unsupported("Element")
            return [(st, ModelV(New(), tag=eng.enc(st, args[0], STR), attrs={k: eng.enc(st, x, STR) for k, x in kw.items()}))]
        m["xml.etree.cElementTree.Element"] = element
        return m

    def doc(self, c, method):
        self.ref, self.how_case = c.obj(M[:-1], {}), method
        q = c.st.mutate(self.ref)
        for s in SIDES:
            for k, t in (("n", NA[s]), ("link", LA[s])):
                q.fields["@%s.%s" % (k, s)] = T(t, z3.Const("old_%s_%s" % (k, s), t.sort))
        for a in ATTRS + ("tag",):
            q.fields["@out." + a] = T(OUTA, z3.Const("old_out_" + a, OUTA.sort))
            q.fields["@has." + a] = T(HASA, z3.Const("old_has_" + a, HASA.sort))
        q.fields["@out"] = T(INT, z3.Int("old_out"))
        q.fields["alignment"] = ModelV(Section(), con=self)
        if method == "other":
            self.how = c.term(STR, "method")
            c.assume(self.how.t != lit("n"), self.how.t != lit("id"))
        else:
            self.how = {"n": PStr("n"), "default": NONE, "id": PStr("id")}[method]
        self.trees = {}
        for s in SIDES:
            self.trees[s] = c.obj("daeso.ptc.ielemtree.IndexElemTree", {"tagCountTable": ModelV(Table(), side=s, ids=False),
                                                                          "tagIdTable": ModelV(Table(), side=s, ids=True)})
            x = z3.Const("kx", E_[s])
            self.old = {}
        for s in SIDES:
            for k in ("n", "link"):
                self.old[k, s] = q.fields["@%s.%s" % (k, s)].t
            x = z3.Const("kx", E_[s])
            c.assume(forall(x, self.old["n", s][x] >= 0, [self.old["n", s][x]]))
        c.assume(NLINKS >= 0)
        c.eng.zlen(c.st, T(STR, lit("x")))

    def exc(self, c, st, ex):
        yield "unknown-method", z3.BoolVal(c.case == "other" and ex.cls == "AssertionError")


class Inject(Doc):
    target = M + "inject_alignments"
    cases = ("n", "default", "id", "other")

    def setup(self, c):
        for s in SIDES:
            ORDER[s].use()
            POS[s].use()
        self.doc(c, c.case)
        k = z3.Int("kk")
        for s in SIDES:
            l = LINKAT(k)
            t = GIVEN[s + "_tag"](l)
            if c.case == "id":
                i = GIVEN[s + "_id"](l)
                ok = z3.And(TAGS[s][t], HASID[s](t, i), END[s](l) == BYID[s](t, i))
            else:
                i = GIVEN[s + "_n"](l)
                ok = z3.And(TAGS[s][t], isint(i), 1 <= toint(i), toint(i) <= COUNT[s](t), END[s](l) == ENTRY[s](t, toint(i) - 1))
            # the links refer to elements of the texts
            c.assume(forall(k, z3.Implies(z3.And(0 <= k, k < NLINKS), ok), [LINKAT(k)]))
        return [self.ref, self.trees["from"], self.trees["to"]]

    def upto(self, st, k):
        j, i = z3.Int("kj"), z3.Int("ki")
        f = st.place(self.ref).fields
        for s in SIDES:
            n, at, N, A = self.old["n", s], self.old["link", s], f["@n." + s].t, f["@link." + s].t
            x, l = z3.Const("kx", E_[s]), LINKAT(j)
            y = END[s](l)
            yield "number-" + s, forall(x, N[x] == n[x] + UPTO[s](x, k), [N[x]])
            yield "earlier-" + s, forall([x, i], z3.Implies(i < n[x], A[AT[s].mk(x, i)] == at[AT[s].mk(x, i)]), [A[AT[s].mk(x, i)]])
            yield "links-" + s, forall(j, z3.Implies(z3.And(0 <= j, j < k), A[AT[s].mk(y, n[y] + UPTO[s](y, j))] == END[OTHER[s]](l)),
                                       [LINKAT(j), A[AT[s].mk(y, n[y] + UPTO[s].f(y, j))]])

    def inv(self, L):
        if L.it is None:
            return
        for m, (lab, f) in enumerate(self.upto(L.head, L.k)):
            yield lab, lambda V, m=m: list(self.upto(V.st, V.k))[m][1]

    def post(self, c, st, ret):
        if c.case == "other":
            yield "unknown-method", z3.BoolVal(False)
            return
        for x in self.upto(st, NLINKS):
            yield x


NALL, ITEM = z3.Int("k_elements"), fun("k_element", Z, E_["from"])
NL, LK = z3.Const("old_n_from", NA["from"].sort), z3.Const("old_link_from", LA["from"].sort)
OFFSET = RecFn("k_offset", [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + NL[ITEM(k - 1)]))      # links of the first k elements
GAP = Lemma("k-offsets", [Z, Z], lambda j, k: OFFSET(j) + NL[ITEM(j)] <= OFFSET(k), hyp=lambda j, k: z3.And(0 <= j, j < k, NL[ITEM(k - 1)] >= 0),
            measure=lambda j, k: k, hints=lambda j, k: [(j, k - 1)],
            extra=lambda j, k: [OFFSET(j) == OFFSET.f0(j), OFFSET(k - 1) == OFFSET.f0(k - 1), NL[ITEM(k - 2)] >= 0],
            pats=lambda j, k: [z3.MultiPattern(OFFSET.f0(j), OFFSET.f(k))], lim=lambda j, k: OFFSET.f0(j) + NL[ITEM(j)] <= OFFSET.f0(k))


PLACE = fun("k_place", Z, Z, Z)                                    # of a link in the section


class Everything(object):
    """getiterator"""
    has_iter = True

    def call(self, eng, st, v, args, kw, e):
        if args or kw:
            raise Unsupported("getiterator")
        return [(st, v)]

    def iterate(self, eng, st, v):
        return [(st, It(NALL, lambda k: T(NODE["from"], ITEM(k)), None, v, "elements", key=lambda k: ITEM(k)))]


class Extract(Doc):
    target = M + "extract_alignments"
    cases = ("n", "default", "id", "other")

    def setup(self, c):
        self.doc(c, c.case)
        c.assume(NALL >= 0)
        GAP.use()
        i, j = z3.Int("ki"), z3.Int("kj")
        c.assume(forall([i, j], PLACE(i, j) == OFFSET(i) + j, [PLACE(i, j)]))
        tree = self.trees["from"]
        for name in ("getiterator", "iter"):
            c.st.mutate(tree).fields[name] = ModelV(Everything())
        return [self.ref, tree, self.trees["to"]]

    def links(self, st, case, k, within=None):
        """links of the first k elements (and of the first `within` of the next)"""
        f = st.place(self.ref).fields
        yield "number", f["@out"].t == OFFSET(k) + (0 if within is None else within)
        i, j = z3.Int("ki"), z3.Int("kj")
        x = ITEM(i)
        y = LK[AT["from"].mk(x, j)]
        at = PLACE(i, j)
        some = z3.And(0 <= i, i < k, 0 <= j, j < NL[x])
        if within is not None:
            some = z3.Or(some, z3.And(0 <= i, i == k, 0 <= j, j < within))
        want = {"tag": lit("link"), "from_tag": TAG["from"](x), "to_tag": TAG["to"](y)}
        if case == "id":
            want.update(from_id=IDENT["from"](x), to_id=IDENT["to"](y))
        else:
            want.update(from_n=tostr(NTH["from"](x)), to_n=tostr(NTH["to"](y)))
        for a in ("tag",) + ATTRS:
            if a in want:
                o = f["@out." + a].t
                yield a, forall([i, j], z3.Implies(some, o[at] == want[a]), [at])
            if a != "tag":
                h = f["@has." + a].t
                yield "has-" + a, forall([i, j], z3.Implies(some, h[at] == z3.BoolVal(a in want)), [at])

    def inv(self, L):
        if L.it is None:
            return
        case = self.how_case
        if L.outer is not None and L.outer.it is not None:
            k = L.outer.k
            n = len(list(self.links(L.head, case, k, L.k)))
            for m, (lab, f) in enumerate(self.links(L.head, case, k, L.k)):
                yield lab, lambda V, m=m, k=k: list(self.links(V.st, case, k, V.k))[m][1]
        else:
            for m, (lab, f) in enumerate(self.links(L.head, case, L.k)):
                yield lab, lambda V, m=m: list(self.links(V.st, case, V.k))[m][1]

    def post(self, c, st, ret):
        if c.case == "other":
            yield "unknown-method", z3.BoolVal(False)
            return
        for x in self.links(st, c.case, NALL):
            yield x
        f = st.place(self.ref).fields
        for s in SIDES:
            yield "elements-kept-" + s, z3.And(f["@n." + s].t == self.old["n", s], f["@link." + s].t == self.old["link", s])


LEMMAS = [ORDER[s] for s in SIDES] + [POS[s] for s in SIDES] + [GAP]
CONTRACTS = [Inject, Extract]
