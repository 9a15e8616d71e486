"""stubs for graphs that are not loaded yet, and loading a corpus"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort
from pyvc.spec import *
from pyvc.verify import Contract
from contracts.graphbank import GetGraph, samefile, EXISTS, REALPATH, GRAPH

GP = OP("GraphPair")
GR = OP("AnyGraph")           # stubs and full graphs
STUB = "daeso.gb.graphstub.GraphStub"
BANKS = "daeso.gb.graphbank."
PARSER = "daeso.pgc.corpus.PGCParser"
AM = Ty("arr", GP, GR)
S_ = STR.sort
SELF = z3.Const("the_stub", GR.sort)
IS_DG = fun("is_daesograph", GR.sort, z3.BoolSort())
NONEMPTY = fun("graph_truth", GR.sort, z3.BoolSort())


def isa(v, cls):
    n = cls.info.name if isinstance(cls, Cls) else cls.name
    return IS_DG(v.t) if n == "DaesoGraph" else fun("isa_" + n, GR.sort, z3.BoolSort())(v.t)


class Graphs(object):
    """the pair of graphs of a graph pair; each graph pair has its own"""

    def __init__(self, c):
        self.c = c

    def getattr(self, eng, st, v, n, e):
        if n not in ("source", "target"):
            raise Unsupported("attribute " + n)
        return [(st, T(GR, st.place(self.c.ref).fields["@" + n].t[v.gp]))]

    def setattr(self, eng, st, v, n, x, e):
        if n not in ("source", "target"):
            raise Unsupported("attribute " + n)
        st = st.copy()
        q = st.mutate(self.c.ref)
        q.fields["@" + n] = T(AM, z3.Store(q.fields["@" + n].t, v.gp, self.c.graph_term(eng, st, x)))
        return [(st, None)]

    def iterate(self, eng, st, v):
        return eng.bi_iter(st, [Tupl([T(GR, st.place(self.c.ref).fields["@" + n].t[v.gp]) for n in ("source", "target")])], {}, None)


class Stub(Contract):
    props = ("C18",)
    cases = ("stub",)

    def graph_term(self, eng, st, x):
        if isinstance(x, Ref) and x == self.ref:
            return SELF
        return eng.enc(st, x, GR)

    def models(self, c):
        def graphs(eng, st, v, n, e):
            if n != "_graphs":
                raise Unsupported("attribute " + n)
            return [(st, ModelV(Graphs(self), gp=v.t))]

        def is_(eng, st, a, b):
            return self.graph_term(eng, st, a) == self.graph_term(eng, st, b)
        return {"attr:" + GP.key: graphs, "truth:" + GR.key: lambda eng, st, v: [(st, NONEMPTY(v.t))],
                "is:" + GR.key: is_, "isinstance:" + GR.key: lambda eng, st, v, cls: isa(v, cls)}

    def setup(self, c):
        self.clients = c.seq("clients", GP)
        self.a, self.n = c.eng.as_arr(c.st, self.clients)
        self.src, self.tgt = z3.Const("src", AM.sort), z3.Const("tgt", AM.sort)
        self.ref = c.obj(STUB, {"id": c.term(STR, "id"), "clients": self.clients,
                                "@source": T(AM, self.src), "@target": T(AM, self.tgt)})
        return [self.ref] + self.args(c)

    def now(self, st, n):
        return st.place(self.ref).fields["@" + n].t

    def same(self, c, st):
        p = z3.Const("p", GP.sort)
        for n, o in (("source", self.src), ("target", self.tgt)):
            yield n + "-graphs-unchanged", forall(p, self.now(st, n)[p] == o[p], [self.now(st, n)[p]])


class AddClient(Stub):
    target = STUB + ".add_client"

    def args(self, c):
        self.x = c.term(GP, "x")
        c.assume(NONEMPTY(self.src[self.x.t]), NONEMPTY(self.tgt[self.x.t]))
        return [self.x]

    def post(self, c, st, ret):
        b, m = c.eng.as_arr(st, st.place(self.ref).fields["clients"], GP)
        i = z3.Int("i")
        yield "one-more", m == self.n + 1
        yield "clients", forall(i, z3.Implies(z3.And(0 <= i, i <= self.n), b[i] == z3.If(i < self.n, self.a[i], self.x.t)), [b[i]])
        for x in self.same(c, st):
            yield x


class ReplaceStub(Stub):
    """in every client, the graph takes the place of the stub and of nothing else"""
    target = STUB + ".replace_stub"

    def args(self, c):
        self.g = c.term(GR, "g")
        i, j = z3.Ints("i j")
        a, s, t = self.a, self.src, self.tgt
        # the stub is on one side of each client, and each client is known once
        c.assume(self.n > 0, IS_DG(self.g.t), self.g.t != SELF)
        c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < self.n), z3.And(
            s[a[i]] != t[a[i]], z3.Or(s[a[i]] == SELF, t[a[i]] == SELF))), [a[i]]))
        c.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n), a[i] != a[j]), [z3.MultiPattern(a[i], a[j])]))
        return [self.g]

    def changed(self, V_st, k):
        p, i = z3.Const("p", GP.sort), z3.Int("i")
        for n, o in (("source", self.src), ("target", self.tgt)):
            x = self.now(V_st, n)
            yield n + "-of-clients", forall(i, z3.Implies(z3.And(0 <= i, i < k), x[self.a[i]] == z3.If(
                o[self.a[i]] == SELF, self.g.t, o[self.a[i]])), [self.a[i]])
            yield n + "-otherwise", forall(p, z3.Or(x[p] == o[p], z3.And(o[p] == SELF, x[p] == self.g.t)), [x[p]])

    def inv(self, L):
        if L.it is None:
            return
        i = z3.Int("i")
        for lab in ("source-of-clients", "target-of-clients", "source-otherwise", "target-otherwise"):
            yield lab, lambda V, lab=lab: dict(self.changed(V.st, V.k))[lab]
        for n, o in (("source", self.src), ("target", self.tgt)):
            yield n + "-not-yet", lambda V, n=n, o=o: forall(i, z3.Implies(z3.And(V.k <= i, i < self.n), self.now(
                V.st, n)[self.a[i]] == o[self.a[i]]), [self.a[i]])

    def post(self, c, st, ret):
        for x in self.changed(st, self.n):
            yield x
        yield "clients-forgotten", z3.BoolVal("clients" not in st.place(self.ref).fields)


GA = Ty("arr", GR, GR)


class BankLoad(Contract):
    """when loaded, every stub asked for has been replaced by the graph with its id"""
    props = ("C18",)
    target = BANKS + "SparseGraphBank.load"
    cases = ("bank",)
    PARSED = fun("graph_in_file", S_, S_, S_, GR.sort)      # path, format, id

    def setup(self, c):
        self.p, self.f = c.term(STR, "path"), c.term(STR, "format")
        self.d = c.dict("stubs", STR, GR)
        p = c.st.place(self.d)
        self.dom, self.mp = p.dom, p.mp
        i, j = z3.Consts("i j", S_)
        # a stub is under one id; established by get_graph_stub
        c.assume(forall([i, j], z3.Implies(z3.And(p.dom[i], p.dom[j], i != j), p.mp[i] != p.mp[j]),
                        [z3.MultiPattern(p.mp[i], p.mp[j])]))
        self.by = z3.Const("replaced_by", GA.sort)
        self.ref = c.obj(BANKS + "SparseGraphBank", {"_file_path": self.p, "_format": self.f, "_id2graph": self.d,
                                                     "_loaded": B(False), "@by": T(GA, self.by)})
        return [self.ref]

    def models(self, c):
        def attr(eng, st, v, n, e):
            if n != "replace_stub":
                raise Unsupported("attribute " + n)
            return [(st, ModelV(Replace(self), t=v.t))]

        def get_parser(eng, st, env, e):
            return [(st, ModelV(Parser(self), fmt=eng.enc(st, env["format"], STR)))]
        return {"attr:" + GR.key: attr, "fromkeys": OPT(GR), "fn:" + BANKS + "GraphBank._get_parser": get_parser}

    def inv(self, L):
        if L.it is None:
            return
        i, g = z3.Const("i", S_), z3.Const("g", GR.sort)
        j = z3.Int("j")

        def D(V):
            p = V.st.place(self.d)
            return p.dom, p.mp
        yield "same-ids", lambda V: forall(i, D(V)[0][i] == self.dom[i], [D(V)[0][i]])
        key = L.it.key
        if key is None:
            return
        want = lambda x: self.PARSED(self.p.t, self.f.t, x)
        by = lambda V: V.st.place(self.ref).fields["@by"].t
        yield "replaced-so-far", lambda V: forall(j, z3.Implies(z3.And(0 <= j, j < V.k), z3.And(
            D(V)[1][key(j)] == want(key(j)), by(V)[self.mp[key(j)]] == want(key(j)))), [key(j)])
        yield "not-yet", lambda V: forall(j, z3.Implies(z3.And(V.k <= j, j < L.it.n), D(V)[1][key(j)] == self.mp[key(j)]), [key(j)])

    def post(self, c, st, ret):
        p = st.place(self.d)
        by = st.place(self.ref).fields["@by"].t
        i = z3.Const("i", S_)
        g = self.PARSED(self.p.t, self.f.t, i)
        yield "same-ids", forall(i, p.dom[i] == self.dom[i], [p.dom[i]])
        yield "graph-of-each-id", forall(i, z3.Implies(self.dom[i], p.mp[i] == g), [self.dom[i]])
        yield "each-stub-replaced", forall(i, z3.Implies(self.dom[i], by[self.mp[i]] == g), [self.dom[i]])
        (_, t), = c.eng.truth(st, st.place(self.ref).fields["_loaded"])
        yield "loaded", t if z3.is_expr(t) else z3.BoolVal(t)
        ok = fun("all_found", S_, S_, SET(STR).sort, z3.BoolSort())
        yield "all-found", ok(self.p.t, self.f.t, self.dom)

    def exc(self, c, st, ex):
        if ex.cls not in ("DaesoError", "IOError"):
            return None
        p = st.place(self.d)
        yield "stubs-unchanged", z3.And(p.dom == self.dom, p.mp == self.mp)
        (_, t), = c.eng.truth(st, st.place(self.ref).fields["_loaded"])
        yield "not-loaded", z3.Not(t) if z3.is_expr(t) else z3.BoolVal(not t)


class Replace(object):
    """replace_stub of a stub: recorded; its contract is ReplaceStub"""

    def __init__(self, c):
        self.c = c

    def call(self, eng, st, v, args, kw, e):
        if len(args) != 1 or kw:
            raise Unsupported("arguments of replace_stub")
        out = []
        for s, x in eng.unopt(st, args[0], lambda s, x: [(s, x)], e) if isinstance(args[0], T) and args[0].ty.k == "opt" else [
                (st, args[0])]:
            if isinstance(x, Exc):
                # None is no graph
                out.append((s, Exc("AssertionError", None, e.line if e else None)))
                continue
            s = s.copy()
            q = s.mutate(self.c.ref)
            q.fields["@by"] = T(GA, z3.Store(q.fields["@by"].t, v.t, eng.enc(s, x, GR)))
            out.append((s, NONE))
        return out


class Parser(object):
    """parsing a file: assumed to fill in the graphs of all ids given, or to fail"""

    def __init__(self, c):
        self.c = c

    def getattr(self, eng, st, v, n, e):
        return [(st, Method(v, n))]

    def method(self, eng, st, v, n, args, kw, e):
        kw = dict(kw)
        args = list(args)
        if n != "parse_file":
            raise Unsupported("parser." + n)
        if "id2graph" in kw:
            args.append(kw.pop("id2graph"))
        sparse = args.pop() if len(args) == 3 else kw.pop("sparse", B(False))
        if len(args) != 2 or kw:
            raise Unsupported("arguments of parse_file")
        (_, t), = eng.truth(st, sparse)
        if not (t is True or z3.is_expr(t) and z3.is_true(z3.simplify(t))):
            raise Unsupported("a parser that is not sparse")
        path = eng.enc(st, args[0], STR)
        dom, mp = eng.as_dict(st, args[1], STR, OPT(GR))
        ok = fun("all_found", S_, S_, SET(STR).sort, z3.BoolSort())(path, v.fmt, dom)
        out = []
        s0 = st.copy()
        out.append((s0, Exc("IOError", None, e.line if e else None)))
        for s, y in eng.split(st, ok):
            if not y:
                out.append((s, Exc("DaesoError", None, e.line if e else None)))
                continue
            q = s.mutate(args[1])
            if q.items is not None:
                raise Unsupported("known ids")
            new = z3.FreshConst(DICT(STR, GR).get(1, z3.FreshConst(DICT(STR, GR).sort)).sort(), "parsed")
            i = z3.Const("i", S_)
            s.assume(forall(i, z3.Implies(dom[i], new[i] == self.c.PARSED(path, v.fmt, i)), [new[i]]))
            q.mp, q.vty = new, GR
            out.append((s, args[1]))
        return out


class FullParser(Parser):
    """parsing a file: assumed to put every graph of the file under its id, or to fail"""

    def method(self, eng, st, v, n, args, kw, e):
        kw, args = dict(kw), list(args)
        if n != "parse_file":
            raise Unsupported("parser." + n)
        for k in ("inf", "id2graph", "sparse")[len(args):]:
            if k in kw:
                args.append(kw.pop(k))
            elif k == "sparse":
                args.append(B(False))
        if len(args) != 3 or kw:
            raise Unsupported("arguments of parse_file")
        (_, t), = eng.truth(st, args[2])
        if z3.is_expr(t) and not z3.is_false(z3.simplify(t)) or t is True:
            raise Unsupported("a parser that is sparse")
        d = args[1]
        if not isinstance(d, Ref) or d != self.c.d:
            eng.oblige("into-the-graphs-of-the-bank", st, z3.BoolVal(False), e.line if e else None)
            return []
        path = eng.enc(st, args[0], STR)
        s = st.copy()
        q = s.mutate(d)
        q.dom, q.mp = ALL_IDS(path, v.fmt), FROM_FILE(path, v.fmt)
        return [(st.copy(), Exc("IOError", None, e.line if e else None)), (s, d)]


ALL_IDS = fun("ids_in_file", S_, S_, SET(STR).sort)
FROM_FILE = fun("graphs_in_file", S_, S_, z3.ArraySort(S_, GR.sort))


class FullLoad(Contract):
    """the bank has every graph of its file, in its format"""
    props = ("C18", "C27")
    target = BANKS + "GraphBank.load"

    def setup(self, c):
        self.p, self.f = c.term(STR, "path"), c.term(STR, "format")
        self.d = c.dict("graphs", STR, GR)
        self.ref = c.obj(BANKS + "GraphBank", {"_file_path": self.p, "_format": self.f, "_id2graph": self.d, "_loaded": B(False)})
        return [self.ref]

    def models(self, c):
        def get_parser(eng, st, env, e):
            return [(st, ModelV(FullParser(self), fmt=eng.enc(st, env["format"], STR)))]
        return {"fn:" + BANKS + "GraphBank._get_parser": get_parser}

    def loaded(self, c, st):
        (_, t), = c.eng.truth(st, st.place(self.ref).fields["_loaded"])
        return t if z3.is_expr(t) else z3.BoolVal(t)

    def post(self, c, st, ret):
        p = st.place(st.place(self.ref).fields["_id2graph"])
        yield "all-graphs-of-the-file", z3.And(p.dom == ALL_IDS(self.p.t, self.f.t), p.mp == FROM_FILE(self.p.t, self.f.t))
        yield "loaded", self.loaded(c, st)

    def exc(self, c, st, ex):
        if ex.cls != "IOError":
            return None
        return [("not-loaded", z3.Not(self.loaded(c, st)))]


class GetStub(Contract):
    """the same stub for the same id, a new one with that id for a new id"""
    props = ("C18",)
    target = BANKS + "SparseGraphBank.get_graph_stub"
    cases = ("bank",)
    NEW = fun("new_stub", S_, GR.sort)

    def models(self, c):
        def new(eng, st, args, kw, e):
            if len(args) != 1 or kw:
                raise Unsupported("arguments of GraphStub")
            return [(st, T(GR, self.NEW(eng.enc(st, args[0], STR))))]
        return {"new:" + STUB: new}

    def setup(self, c):
        self.d = c.dict("stubs", STR, GR)
        p = c.st.place(self.d)
        self.dom, self.mp = p.dom, p.mp
        self.i = c.term(STR, "id")
        self.ref = c.obj(BANKS + "SparseGraphBank", {"_file_path": c.term(STR, "p"), "_format": c.term(STR, "f"),
                                                     "_id2graph": self.d, "_loaded": B(False)})
        return [self.ref, self.i]

    def post(self, c, st, ret):
        p = st.place(self.d)
        i, j = self.i.t, z3.Const("j", S_)
        g = z3.If(self.dom[i], self.mp[i], self.NEW(i))
        yield "the-stub", c.eng.enc(st, ret, GR) == g
        yield "stubs", forall(j, z3.And(p.dom[j] == z3.Or(self.dom[j], j == i), z3.Implies(p.dom[j], p.mp[j] == z3.If(
            j == i, g, self.mp[j]))), [p.dom[j]])


class Unresolved(Contract):
    """fails exactly if a wanted graph was not found"""
    props = ("C18",)
    target = "daeso.gb.parser.XmlGraphbankParser._check_for_unresolved_graphs"
    cases = ("parser",)

    def setup(self, c):
        self.d = c.dict("graphs", STR, OPT(GRAPH))
        p = c.st.place(self.d)
        self.dom, self.mp = p.dom, p.mp
        self.ref = c.obj("daeso.gb.parser.XmlGraphbankParser", {"_id2graph": self.d, "_sparse": B(True)})
        return [self.ref, c.term(STR, "name")]

    def none(self, i):
        return OPT(GRAPH)._dt()[4](self.mp[i])

    def post(self, c, st, ret):
        i = z3.Const("i", S_)
        yield "all-found", forall(i, z3.Implies(self.dom[i], z3.Not(self.none(i))), [self.dom[i]])

    def exc(self, c, st, ex):
        if ex.cls != "DaesoError":
            return None
        i = z3.Const("i", S_)
        return [("some-missing", z3.Exists([i], z3.And(self.dom[i], self.none(i))))]


BANK = OP("Bank")
PG = "daeso.pgc.corpus."
IN_BANK = fun("bank_has_graph", BANK.sort, S_, z3.BoolSort())
OF_BANK = fun("bank_graph", BANK.sort, S_, GR.sort)
STUB_OF = fun("bank_stub", BANK.sort, S_, GR.sort)
OPTS = OPT(STR)


class Elem(object):
    """an element: its attributes, tag and text"""

    def __init__(self, attrib, text=None):
        self.attrib, self.text = attrib, text

    def getattr(self, eng, st, v, n, e):
        if n == "attrib":
            return [(st, self.attrib)]
        if n == "tag":
            return [(st, T(STR, z3.Const("tag", S_)))]
        if n == "text" and self.text is not None:
            return [(st, self.text)]
        return [(st, Method(v, n))]

    def method(self, eng, st, v, n, args, kw, e):
        if n == "get":
            return eng.call_method(st, self.attrib, "get", args, kw, e)
        raise Unsupported("element." + n)


class Parse(Contract):
    props = ("C18",)
    cases = ("all", "stubs")

    def models(self, c):
        def new_pair(eng, st, args, kw, e):
            if len(args) != 2 or kw:
                raise Unsupported("Pair arguments")
            return [(st, Tupl(list(args)))]

        def pair_attr(eng, st, v, name, e):
            if name in ("source", "target") and len(v.items) == 2:
                return [(st, v.items[name == "target"])]
            return None

        def bank(eng, st, v, n, e):
            return [(st, ModelV(BankMethod(), bank=v.t, name=n))]
        return {"new:daeso.pair.Pair": new_pair, "attr:tuple": pair_attr, "attr:" + BANK.key: bank}

    def setup(self, c):
        self.att = c.dict("attrib", STR, STR)
        p = c.st.place(self.att)
        self.ad, self.am = p.dom, p.mp
        self.text = c.term(STR, "text")
        self.elem = ModelV(Elem(self.att, self.text))
        self.banks = c.dict("banks", STR, BANK)
        p = c.st.place(self.banks)
        self.bd, self.bm = p.dom, p.mp
        self.mode(c)
        self.ref = c.obj(PARSER, {"graphbanks": self.banks, "graph_loading": self.loading, "dir": c.term(STR, "dir"),
                                  "relax_gb_paths": T(BOOL, z3.Bool("relax")), "default_format": T(OPTS, z3.Const(
                                      "default_format", OPTS.sort))})
        return [self.ref] + self.args(c)

    def mode(self, c):
        v = {"all": "LOAD_ALL", "stubs": "LOAD_SPARSE"}[c.case]
        (_, self.loading), = c.eng.mod_attr(c.st, "daeso.pgc.corpus", v, None)

    def has(self, n):
        return self.ad[lit(n)]

    def attr(self, n):
        return self.am[lit(n)]


class BankMethod(object):
    def call(self, eng, st, v, args, kw, e):
        if len(args) != 1 or kw or v.name not in ("get_graph", "get_graph_stub"):
            raise Unsupported("bank." + v.name)
        i = eng.enc(st, args[0], STR)
        if v.name == "get_graph_stub":
            # contract GetStub
            return [(st, T(GR, STUB_OF(v.bank, i)))]
        # contract GetGraph
        return [(s, T(GR, OF_BANK(v.bank, i)) if y else Exc("KeyError", args[0], e.line if e else None))
                for s, y in eng.split(st, IN_BANK(v.bank, i))]


class GetBanks(Parse):
    """the banks with the given ids, in order"""
    target = PARSER + "._get_banks"
    cases = ("stubs",)
    names = ("from_bank_id", "to_bank_id")

    def args(self, c):
        return [self.elem]

    def ok(self):
        return z3.And([z3.And(self.has(n), self.bd[self.attr(n)]) for n in self.names])

    def post(self, c, st, ret):
        yield "banks-are-known", self.ok()
        if not (isinstance(ret, Tupl) and len(ret.items) == 2):
            yield "a-pair", z3.BoolVal(False)
            return
        for n, x in zip(self.names, ret.items):
            yield "bank-of-" + n, c.eng.enc(st, x, BANK) == self.bm[self.attr(n)]

    def exc(self, c, st, ex):
        if ex.cls != "DaesoError":
            return None
        return [("missing-attribute-or-bank", z3.Not(self.ok()))]


class GetGraphs(Parse):
    """the graphs with the given ids from their own banks, or stubs for them"""
    target = PARSER + "._get_graphs"

    def args(self, c):
        self.two = [c.term(BANK, "source_bank"), c.term(BANK, "target_bank")]
        return [self.elem, Tupl(self.two)]
    names = ("from_graph_id", "to_graph_id")

    def ok(self, c):
        r = [self.has(n) for n in self.names]
        if c.case == "all":
            r += [IN_BANK(b.t, self.attr(n)) for b, n in zip(self.two, self.names)]
        return z3.And(r)

    def post(self, c, st, ret):
        yield "graphs-are-known", self.ok(c)
        if not (isinstance(ret, Tupl) and len(ret.items) == 2):
            yield "a-pair", z3.BoolVal(False)
            return
        f = OF_BANK if c.case == "all" else STUB_OF
        for b, n, x in zip(self.two, self.names, ret.items):
            yield "graph-of-" + n, c.eng.enc(st, x, GR) == f(b.t, self.attr(n))

    def exc(self, c, st, ex):
        if ex.cls != "DaesoError":
            return None
        return [("missing-attribute-or-graph", z3.Not(self.ok(c)))]


ISABS = fun("isabs", S_, z3.BoolSort())
JOIN = fun("path_join", S_, S_, S_)
BASE = fun("basename", S_, S_)
STRIP = fun("stripped", S_, S_)
BANK_OF = fun("new_bank", S_, OPTS.sort, z3.BoolSort(), BANK.sort)


class FileElem(Parse):
    """a bank at the path given, relative to the corpus, or (if asked for and there is none) next to the corpus"""
    target = PARSER + ".handle_file_elem_end"

    def models(self, c):
        m = Parse.models(self, c)

        def f1(f, ty=None):
            def model(eng, st, args, kw, e):
                t = f(*[eng.enc(st, a, STR) for a in args])
                return [(st, T(BOOL if ty is None and t.sort() == z3.BoolSort() else STR, t))]
            return model

        def new(sparse):
            def model(eng, st, args, kw, e):
                if len(args) != 2 or kw:
                    raise Unsupported("arguments of GraphBank")
                return [(st, T(BANK, BANK_OF(eng.enc(st, args[0], STR), eng.enc(st, args[1], OPTS), z3.BoolVal(sparse))))]
            return model
        m.update({"os.path.isabs": f1(ISABS), "os.path.join": f1(JOIN), "os.path.basename": f1(BASE),
                  "os.path.realpath": f1(REALPATH), "os.path.exists": f1(EXISTS),
                  "new:" + BANKS + "GraphBank": new(False), "new:" + BANKS + "SparseGraphBank": new(True)})
        return m

    def args(self, c):
        c.assume(self.has("id"), z3.Not(self.bd[self.attr("id")]))
        return [self.elem]

    def post(self, c, st, ret):
        p = st.place(self.banks)
        f = st.place(self.ref).fields
        strip = lambda s: T(STR, s)
        (s, txt), = c.eng.call_method(st.copy(), self.text, "strip", [], {}, None)
        txt = c.eng.enc(s, txt, STR)
        d = c.eng.enc(st, f["dir"], STR)
        given = z3.If(ISABS(txt), txt, REALPATH(JOIN(d, txt)))
        path = z3.If(z3.And(z3.Not(EXISTS(given)), z3.Bool("relax")), REALPATH(JOIN(d, BASE(given))), given)
        df = z3.Const("default_format", OPTS.sort)
        own = c.eng.truth(st, T(STR, self.attr("format")))[0][1]
        fmt = z3.If(z3.And(self.has("format"), own), c.eng.enc(st, T(STR, self.attr("format")), OPTS), df)
        i, j = self.attr("id"), z3.Const("j", S_)
        yield "the-bank", z3.And(p.dom[i], p.mp[i] == BANK_OF(path, fmt, z3.BoolVal(c.case == "stubs")))
        yield "other-banks-kept", forall(j, z3.Implies(j != i, z3.And(p.dom[j] == self.bd[j], z3.Implies(
            p.dom[j], p.mp[j] == self.bm[j]))), [p.dom[j]])


CONTRACTS = [AddClient, ReplaceStub, BankLoad, FullLoad, GetStub, Unresolved, GetBanks, GetGraphs, FileElem]
