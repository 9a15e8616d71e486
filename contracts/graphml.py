"""graph banks in GraphML: keys, defaults and data"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort, enum_fn, card_fn
from pyvc.spec import *
from pyvc.verify import Contract

M = "daeso.gb.graphml.GraphmlParser"
KEY = DICT(STR, STR)                # one key: its "name", "type" and perhaps "default"
TBL = DICT(STR, KEY)                # keys of one component by id
S_ = STR.sort
KEYS = KEY.sort
dom = lambda ty, d: ty.get(0, d)
mp = lambda ty, d: ty.get(1, d)
NAME, TYPE, DEFAULT, TOKENS, ALL = (lit(x) for x in ("name", "type", "default", "tokens", "all"))
COMPONENTS = ("graph", "node", "edge", "all")


def name(k):
    return mp(KEY, k)[NAME]


def has_default(k):
    return dom(KEY, k)[DEFAULT]


def default(k):
    return mp(KEY, k)[DEFAULT]


class Recorder(object):
    """the graph under construction: token strings and attributes are recorded on the parser"""

    def __init__(self, c):
        self.c = c

    def truth(self, eng, st, v):
        # a graph without nodes is false
        return [(st, fun("graph_has_nodes", z3.BoolSort())())]

    def getattr(self, eng, st, v, n, e):
        if n == "graph":
            return [(st, self.c.gattrs)]
        return [(st, Method(v, n))]

    def method(self, eng, st, v, n, args, kw, e):
        p = st.mutate(self.c.ref)
        if n == "set_graph_token_string" and len(args) == 1:
            p.fields["@gtok"] = T(STR, eng.enc(st, args[0], STR))
            p.fields["@gset"] = B(z3.BoolVal(True))
        elif n == "set_node_token_string" and len(args) == 2:
            p.fields["@ntok"] = T(Ty("arr", STR, STR), z3.Store(p.fields["@ntok"].t, eng.enc(st, args[0], STR),
                                                                eng.enc(st, args[1], STR)))
            p.fields["@nset"] = B(z3.BoolVal(True))
        else:
            raise Unsupported("graph." + n)
        return [(st, NONE)]


AR = Ty("arr", STR, STR)


class GP(Contract):
    props = ("C19",)
    cases = ("graph", "node", "edge", "port")
    depth = ()

    def context(self, c):
        return [PStr("graphml"), PStr("graph")] + ([PStr(c.case)] if c.case != "graph" else []) + [PStr(x) for x in self.depth]

    def setup(self, c):
        self.tables = {}
        k, i = z3.Const("k", KEYS), z3.Const("i", S_)
        refs = {}
        for n in COMPONENTS + (("port",) if c.case == "port" else ()):
            refs[n] = c.dict("keys_" + n, STR, KEY)
            p = c.st.place(refs[n])
            self.tables[n] = (p.dom, p.mp)
            # established by _start_key: every key has a name
            c.assume(forall(i, z3.Implies(p.dom[i], dom(KEY, p.mp[i])[NAME]), [p.mp[i]]))
        self.refs = refs
        table = c.st.alloc(DictP(items={("s", n): r for n, r in refs.items()}))
        self.attrs = c.dict("attrs", STR, STR)
        p = c.st.place(self.attrs)
        self.adom, self.amp = p.dom, p.mp
        self.gattrs = self.attrs
        self.key, self.buf, self.node = c.term(STR, "data_key"), c.term(STR, "buffer"), c.term(STR, "node")
        ctx = c.st.alloc(ListP(items=self.context(c)))
        self.ntok = z3.Const("ntok", AR.sort)
        self.ref = c.obj(M, {"_key_table": table, "_context": ctx, "_data_key": self.key, "_char_data_buf": self.buf,
                             "_graph": ModelV(Recorder(self)), "_node": self.node, "_comp_attrs": self.attrs,
                             "_current_key": NONE, "@gtok": c.term(STR, "gtok"), "@gset": B(z3.BoolVal(False)),
                             "@ntok": T(AR, self.ntok), "@nset": B(z3.BoolVal(False))})
        return [self.ref]

    def lookup(self, c, k):
        """(defined, name) of the key with id k for the component"""
        d, m = self.tables[c.case]
        a, b = self.tables["all"]
        return z3.Or(d[k], a[k]), z3.If(d[k], name(m[k]), name(b[k]))

    def keys_unchanged(self, c, st):
        for n, r in sorted(self.refs.items()):
            p = st.place(r)
            yield "keys-unchanged-" + n, z3.And(p.dom == self.tables[n][0], p.mp == self.tables[n][1])

    def attrs_now(self, c, st):
        p = st.place(self.attrs)
        return p.dom, p.mp

    def effect(self, c, st, a, gset, gtok, nset, ntok):
        """a(name) = (present, value)"""
        d, m = self.attrs_now(c, st)
        x = z3.Const("x", S_)
        pres, val = a(x)
        yield "attributes", forall(x, z3.And(d[x] == pres, z3.Implies(pres, m[x] == val)), [d[x]])
        f = st.place(self.ref).fields
        yield "graph-tokens-set-iff", f["@gset"].t == gset
        yield "graph-tokens", z3.Implies(gset, f["@gtok"].t == gtok)
        yield "node-tokens-set-iff", f["@nset"].t == nset
        n = z3.Const("n", S_)
        yield "node-tokens", forall(n, f["@ntok"].t[n] == z3.If(z3.And(nset, n == self.node.t), ntok, self.ntok[n]),
                                    [f["@ntok"].t[n]])


class LookupAttrName(GP):
    """the name of the key for the component, otherwise for all"""
    target = M + "._lookup_attr_name"
    depth = ("data",)

    def post(self, c, st, ret):
        ok, n = self.lookup(c, self.key.t)
        yield "key-is-defined", ok
        yield "own-key-before-general", c.eng.enc(st, ret, STR) == n
        for x in self.keys_unchanged(c, st):
            yield x

    def exc(self, c, st, ex):
        if ex.cls != "DaesoError":
            return None
        return [("undefined-key", z3.Not(self.lookup(c, self.key.t)[0]))]


class EndData(GP):
    """data becomes an attribute of the component it is in, or its tokens"""
    target = M + "._end_data"
    depth = ("data",)

    def post(self, c, st, ret):
        ok, n = self.lookup(c, self.key.t)
        yield "key-is-defined", ok
        f = z3.BoolVal(False)
        g = n == TOKENS if c.case == "graph" else f
        h = n == TOKENS if c.case == "node" else f
        put = z3.Not(z3.Or(g, h))
        for x in self.effect(c, st, lambda x: (z3.Or(self.adom[x], z3.And(put, x == n)),
                                               z3.If(z3.And(put, x == n), self.buf.t, self.amp[x])),
                             g, self.buf.t, h, self.buf.t):
            yield x
        for x in self.keys_unchanged(c, st):
            yield x

    def exc(self, c, st, ex):
        if ex.cls != "DaesoError":
            return None
        return [("undefined-key", z3.Not(self.lookup(c, self.key.t)[0]))] + list(self.effect(
            c, st, lambda x: (self.adom[x], self.amp[x]), z3.BoolVal(False), self.buf.t, z3.BoolVal(False), self.buf.t))


class StartKey(GP):
    """a key is found by its id under its component, without default so far"""
    target = M + "._start_key"
    cases = ("graph", "node", "edge", "all", "any", "port", "node-untyped")

    def context(self, c):
        return [PStr("graphml"), PStr("key")]

    def setup(self, c):
        GP.setup(self, c)
        self.n, self.t, self.i = c.term(STR, "name"), c.term(STR, "type"), c.term(STR, "id")
        d = {"attr.name": self.n, "id": self.i}
        self.comp = c.case.split("-")[0]
        if c.case.endswith("untyped"):
            self.ty = lit("string")
        else:
            d["attr.type"] = self.t
            self.ty = self.t.t
        if self.comp == "any":
            self.comp = "all"
        else:
            d["for"] = PStr(self.comp)
        return [self.ref, c.st.alloc(DictP(items={("s", k): v for k, v in d.items()}))]

    def entries(self, c, st):
        """(component, table) of the key table"""
        t = st.place(self.ref).fields["_key_table"]
        out = []
        for n in sorted(set(COMPONENTS) | {self.comp}):
            for s, r in c.eng.getitem(st.copy(), t, PStr(n)):
                out.append((n, s, r))
        return out

    def is_key(self, k):
        yield "name", z3.And(dom(KEY, k)[NAME], name(k) == self.n.t)
        yield "type", z3.And(dom(KEY, k)[TYPE], mp(KEY, k)[TYPE] == self.ty)
        yield "no-default", z3.Not(has_default(k))

    def post(self, c, st, ret):
        for n, s, r in self.entries(c, st):
            if isinstance(r, Exc):
                yield "component-" + n, z3.BoolVal(False)
                continue
            d, m = c.eng.as_dict(s, r, STR, KEY)
            i = self.i.t
            if n == self.comp:
                yield "key-is-defined", d[i]
                for l, f in self.is_key(m[i]):
                    yield "key-" + l, f
            j = z3.Const("j", S_)
            old = self.tables.get(n)
            hit = (lambda j: j == i) if n == self.comp else (lambda j: z3.BoolVal(False))
            if old is None:
                yield "no-other-key-" + n, forall(j, z3.Or(hit(j), z3.Not(d[j])), [d[j]])
            else:
                yield "other-keys-kept-" + n, forall(j, z3.Or(hit(j), z3.And(d[j] == old[0][j], z3.Implies(
                    d[j], m[j] == old[1][j]))), [d[j]])
        k = st.place(self.ref).fields["_current_key"]
        for l, f in self.is_key(c.eng.enc(st, k, KEY)):
            yield "current-key-" + l, f


class EndDefault(GP):
    """the text of <default> is the default of the current key"""
    target = M + "._end_default"
    cases = ("key",)

    def setup(self, c):
        GP.setup(self, c)
        self.cur = c.dict("current", STR, STR)
        p = c.st.place(self.cur)
        self.cd, self.cm = p.dom, p.mp
        c.st.mutate(self.ref).fields["_current_key"] = self.cur
        return [self.ref]

    def context(self, c):
        return [PStr("graphml"), PStr("key"), PStr("default")]

    def post(self, c, st, ret):
        p = st.place(self.cur)
        x = z3.Const("x", S_)
        yield "default-of-the-key", forall(x, z3.And(
            p.dom[x] == z3.Or(self.cd[x], x == DEFAULT),
            z3.Implies(p.dom[x], p.mp[x] == z3.If(x == DEFAULT, self.buf.t, self.cm[x]))), [p.dom[x]])
        yield "same-key", z3.BoolVal(st.place(self.ref).fields["_current_key"] == self.cur)
        for x in self.keys_unchanged(c, st):
            yield x


KA = arr_sort(KEY)


def sets(k, a):
    """the key gives attribute a a default"""
    return z3.And(has_default(k), name(k) == a)


# the last of the first n keys that does so, or -1
LAST = RecFn("last_default", (KA, z3.IntSort(), S_, z3.IntSort()), lambda F, s, n, a: z3.If(
    n <= 0, -1, z3.If(sets(s[n - 1], a), n - 1, F(s, n - 1, a))))
_v = (KA, z3.IntSort(), S_)
LAST_SETS = Lemma("last_default_sets", _v, lambda s, n, a: z3.And(-1 <= LAST(s, n, a), LAST(s, n, a) < z3.If(n < 0, 0, n), z3.Implies(
    LAST(s, n, a) >= 0, sets(s[LAST(s, n, a)], a))), measure=lambda s, n, a: z3.If(n < 0, 0, n),
    pats=lambda s, n, a: [LAST(s, n, a)], hints=lambda s, n, a: [(s, n - 1, a)])
LAST_GE = Lemma("last_default_is_last", _v + (z3.IntSort(),), lambda s, n, a, j: LAST(s, n, a) >= j,
                hyp=lambda s, n, a, j: z3.And(0 <= j, j < n, sets(s[j], a)), measure=lambda s, n, a, j: n,
                pats=lambda s, n, a, j: [z3.MultiPattern(LAST(s, n, a), s[j])], hints=lambda s, n, a, j: [(s, n - 1, a, j)],
                extra=lambda s, n, a, j: [])
LEMMAS = [LAST_SETS, LAST_GE]


class SetDefaults(GP):
    """defaults of the component's keys, and of the general keys that are not overruled"""
    target = M + "._set_defaults"
    cases = ("graph", "node", "edge")

    def setup(self, c):
        LAST_SETS.use()
        LAST_GE.use()
        self.case, self.seqs = c.case, []
        return GP.setup(self, c)

    def special(self, c, x):
        return x == TOKENS if c.case in ("graph", "node") else z3.BoolVal(False)

    def inv(self, L):
        s = self.seq_of(L)
        if s is None:
            return
        self.seqs.append(s)
        x = z3.Const("x", S_)
        ent = L.entry
        p0, f0 = ent.place(self.attrs), ent.place(self.ref).fields
        case = self.case
        sp = lambda x: x == TOKENS if case in ("graph", "node") else z3.BoolVal(False)

        def attrs(V):
            p = V.st.place(self.attrs)
            w = LAST(s, V.k, x)
            hit = z3.And(w >= 0, z3.Not(sp(x)))
            return forall(x, z3.And(p.dom[x] == z3.Or(p0.dom[x], hit), z3.Implies(
                p.dom[x], p.mp[x] == z3.If(hit, default(s[w]), p0.mp[x]))), [p.dom[x]])
        yield "defaults-so-far", attrs

        def toks(V, f, g, val):
            w = LAST(s, V.k, TOKENS)
            hit = z3.And(z3.BoolVal(case == g), w >= 0)
            fs = V.st.place(self.ref).fields
            return z3.And(fs[f].t == z3.Or(f0[f].t, hit), val(fs) == z3.If(hit, default(s[w]), val(f0)))
        yield "graph-tokens-so-far", lambda V: toks(V, "@gset", "graph", lambda fs: fs["@gtok"].t)
        yield "node-tokens-so-far", lambda V: toks(V, "@nset", "node", lambda fs: fs["@ntok"].t[self.node.t])
        n = z3.Const("n", S_)
        yield "other-nodes-so-far", lambda V: forall(n, z3.Implies(n != self.node.t, V.st.place(self.ref).fields["@ntok"].t[n]
                                                     == self.ntok[n]), [V.st.place(self.ref).fields["@ntok"].t[n]])

    def seq_of(self, L):
        """the keys the loop goes through, as an array"""
        if L.it is None:
            return None
        j = z3.Int("probe_j")
        try:
            t = L.eng.enc(L.head, L.it.elem(j), KEY)
        except Unsupported:
            return None
        if t.num_args() == 2 and t.arg(0).num_args() == 1 and KEY.mk(dom(KEY, t.arg(0).arg(0)), mp(KEY, t.arg(0).arg(0))).eq(t):
            t = t.arg(0).arg(0)
        if z3.is_select(t) and t.arg(1).eq(j):
            return t.arg(0)
        return z3.Lambda([j], t)

    def one_of(self, n, i, x):
        """key i of the table has a default for x"""
        d, m = self.tables[n]
        return z3.And(d[i], sets(m[i], x))

    def none_of(self, n, x):
        i = z3.Const("i", S_)
        return forall(i, z3.Not(self.one_of(n, i, x)), [self.tables[n][1][i]])

    def value_from(self, n, x, v):
        d, m = self.tables[n]
        i = z3.Const("i", S_)
        return z3.Not(forall(i, z3.Not(z3.And(d[i], sets(m[i], x), v == default(m[i]))), [m[i]]))

    def hint(self, n, i):
        """where the key is in the list that is gone through (always true)"""
        idx = fun("enum_idx_" + STR.key, SET(STR).sort, S_, z3.IntSort())(self.tables[n][0], i)
        enum_fn(STR)
        k = card_fn(STR)(self.tables["all"][0])
        k2 = card_fn(STR)(self.tables[n][0])
        return z3.And([keep(s[j]) for s in self.seqs for j in (idx, k + idx, k2 + idx)] + [z3.BoolVal(True)])

    def post(self, c, st, ret):
        d, m = self.attrs_now(c, st)
        x, i = z3.Const("x_any", S_), z3.Const("i_any", S_)
        sp = self.special(c, x)
        own, none, gen = self.one_of(c.case, i, x), self.none_of(c.case, x), self.one_of("all", i, x)
        h, g = self.hint(c.case, i), self.hint("all", i)
        same = z3.And(d[x] == self.adom[x], z3.Implies(d[x], m[x] == self.amp[x]))
        yield "tokens-are-no-attribute", z3.Implies(sp, same)
        yield "no-default-no-change", z3.Implies(z3.And(none, self.none_of("all", x)), same)
        for l, hyp, n in (("own", z3.And(z3.Not(sp), own, h), c.case), ("general", z3.And(z3.Not(sp), none, gen, g), "all")):
            yield l + "-default", z3.Implies(hyp, d[x])
            yield l + "-default-value", z3.Implies(z3.And(hyp, d[x]), self.value_from(n, x, m[x]))
        f = st.place(self.ref).fields
        own, none, gen = self.one_of(c.case, i, TOKENS), self.none_of(c.case, TOKENS), self.one_of("all", i, TOKENS)
        for g_, lab, val in (("graph", "@gset", f["@gtok"].t), ("node", "@nset", f["@ntok"].t[self.node.t])):
            if c.case != g_:
                yield "no-tokens-of-a-" + g_, z3.Not(f[lab].t)
                continue
            yield "no-default-no-tokens", z3.Implies(z3.And(none, self.none_of("all", TOKENS)), z3.Not(f[lab].t))
            yield "own-tokens", z3.Implies(z3.And(own, h), z3.And(f[lab].t, self.value_from(c.case, TOKENS, val)))
            yield "general-tokens", z3.Implies(z3.And(none, gen, g), z3.And(f[lab].t, self.value_from("all", TOKENS, val)))
        n = z3.Const("n", S_)
        yield "other-nodes-untouched", forall(n, z3.Implies(n != self.node.t, f["@ntok"].t[n] == self.ntok[n]), [f["@ntok"].t[n]])
        for x in self.keys_unchanged(c, st):
            yield x


GRAPH = OP("Graph")
GRAPH_OF = fun("new_graph", S_, GRAPH.sort)


class NewGraph(Recorder):
    """a new graph is known by its id"""

    def type_of(self, v):
        return GRAPH

    def enc(self, v, ty):
        t = GRAPH_OF(v.id.t)
        return t if ty == GRAPH else OPT(GRAPH).mk(t)


class StartGraph(GP):
    """a wanted graph is created under its id, others are skipped"""
    target = M + "._start_graph"
    cases = ("all", "sparse")

    def models(self, c):
        def new(eng, st, args, kw, e):
            if args or set(kw) != {"id"}:
                raise Unsupported("arguments of DaesoGraph")
            return [(st, ModelV(NewGraph(self), id=T(STR, eng.enc(st, kw["id"], STR))))]
        return {"new:daeso.graph.daesograph.DaesoGraph": new}

    def context(self, c):
        return [PStr("graphml"), PStr("graph")]

    def setup(self, c):
        sparse = c.case == "sparse"
        cases, c.case = c.case, "graph"
        GP.setup(self, c)
        c.case = cases
        self.id2 = c.dict("id2graph", STR, OPT(GRAPH))
        p = c.st.place(self.id2)
        self.od, self.om = p.dom, p.mp
        q = c.st.mutate(self.ref)
        q.fields.update({"_id2graph": self.id2, "_sparse": B(z3.BoolVal(sparse)), "_graph": NONE, "_comp_attrs": NONE})
        self.sparse = sparse
        self.i = c.term(STR, "id")
        return [self.ref, c.st.alloc(DictP(items={("s", "id"): self.i}))]

    def post(self, c, st, ret):
        f = st.place(self.ref).fields
        p = st.place(self.id2)
        i, j = self.i.t, z3.Const("j", S_)
        wanted = z3.BoolVal(True) if not self.sparse else self.od[i]
        G = OPT(GRAPH)
        new = c.eng.enc(st, T(GRAPH, GRAPH_OF(i)), G)
        yield "graphs", forall(j, z3.And(p.dom[j] == z3.Or(self.od[j], z3.And(wanted, j == i)), z3.Implies(
            p.dom[j], p.mp[j] == z3.If(z3.And(wanted, j == i), new, self.om[j]))), [p.dom[j]])
        g = f["_graph"]
        yield "graph-iff-wanted", wanted == z3.BoolVal(not isinstance(g, NoneV))
        if not isinstance(g, NoneV):
            yield "the-new-graph", c.eng.enc(st, g, G) == new
            yield "its-attributes", z3.BoolVal(f["_comp_attrs"] == self.attrs)


class CharData(GP):
    """text counts in wanted graphs and in defaults, after what came before"""
    target = M + "._char_data"
    cases = ("wanted", "default", "other", "wanted-default")

    def context(self, c):
        return [PStr("graphml"), PStr("key"), PStr("default" if "default" in c.case else "x")]

    def setup(self, c):
        case, c.case = c.case, "graph"
        tail = self.context
        self.context = lambda c: [PStr("graphml"), PStr("key"), PStr("default" if "default" in case else "x")]
        GP.setup(self, c)
        self.context = tail
        c.case = case
        if "wanted" not in case:
            c.st.mutate(self.ref).fields["_graph"] = NONE
        self.more = c.term(STR, "more")
        return [self.ref, self.more]

    def post(self, c, st, ret):
        b = c.eng.enc(st, st.place(self.ref).fields["_char_data_buf"], STR)
        cat = fun("strcat", S_, S_, S_)
        yield "buffer", b == (self.buf.t if c.case == "other" else cat(self.buf.t, self.more.t))


class EndNode(GP):
    """a node needs a label and tokens"""
    target = M + "._end_node"
    cases = ("node",)

    def setup(self, c):
        GP.setup(self, c)
        self.gattrs = c.dict("graph_attrs", STR, STR)
        return [self.ref]

    def ok(self, c, st):
        r = []
        for n in ("label", "tokens"):
            t = c.eng.truth(st, T(STR, self.amp[lit(n)]))[0][1]
            r.append(z3.And(self.adom[lit(n)], t))
        return z3.And(r)

    def post(self, c, st, ret):
        yield "label-and-tokens", self.ok(c, st)
        yield "attributes-are-those-of-the-graph-again", z3.BoolVal(st.place(self.ref).fields["_comp_attrs"] == self.gattrs)

    def exc(self, c, st, ex):
        if ex.cls != "DaesoError":
            return None
        return [("label-or-tokens-missing", z3.Not(self.ok(c, st)))]


CONTRACTS = [LookupAttrName, EndData, StartKey, EndDefault, SetDefaults, StartGraph, CharData, EndNode]
