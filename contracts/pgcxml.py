"""parallel graph corpora in XML: what is written, what is read"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort
from pyvc.spec import *
from pyvc.verify import Contract

GEN = "daeso.pgc.corpus.PGCGenerator"
PARSER = "daeso.pgc.corpus.PGCParser"
GP = OP("GraphMatching")
BANK = OP("Bank")
META = OP("Element")
S_ = STR.sort
Z = z3.IntSort()
BOOLS = Ty("arr", INT, BOOL)
STRS = Ty("arr", INT, STR)
METAS = Ty("arr", INT, META)
GPS = Ty("arr", INT, GP)
IDS = Ty("arr", BANK, STR)
CLS = fun("same_file", BANK.sort, Z)     # banks are equal iff these are (contracts graphbank.Eq, Ne)
NUMBER = fun("the_alignments", GP.sort, Z)
FROM, TO, REL = (fun("aligned_" + n, GP.sort, Z, S_) for n in ("from", "to", "relation"))
SRC, TGT = (fun(n + "_bank", GP.sort, BANK.sort) for n in ("source", "target"))
GID = {n: fun(n + "_graph_id", GP.sort, S_) for n in ("source", "target")}
HASM = fun("has_meta_data", GP.sort, z3.BoolSort())
MOF = fun("meta_data_of", GP.sort, META.sort)
NCHILD = fun("element_children", META.sort, Z)
HASATT = fun("element_has_attributes", META.sort, z3.BoolSort())
TEXT = fun("element_text", META.sort, OPT(STR).sort)
INT_OF = fun("int_of_str", S_, Z)
STR_OF = fun("str_of_int", Z, S_)


def arr_sort_of(a):
    return a.sort()


def pair_attr(eng, st, v, name, e):
    if name in ("source", "target") and len(v.items) == 2:
        return [(st, v.items[name == "target"])]
    return None


class Child(object):
    """an element made by SubElement"""

    def setattr(self, eng, st, v, n, x, e):
        if n != "text":
            raise Unsupported("element." + n)
        st = st.copy()
        v.doc.put(eng, st, v.kids, "text", v.at, x)
        return [(st, None)]

    def getattr(self, eng, st, v, n, e):
        return [(st, Method(v, n))]

    def method(self, eng, st, v, n, args, kw, e):
        st = st.copy()
        if n == "set" and len(args) == 2 and isinstance(args[0], PStr):
            v.doc.put(eng, st, v.kids, args[0].s, v.at, args[1])
        elif n == "append" and len(args) == 1:
            v.doc.put(eng, st, v.kids, "meta", v.at, args[0])
        else:
            raise Unsupported("element." + n)
        return [(st, NONE)]


class Parent(object):
    def getattr(self, eng, st, v, n, e):
        return [(st, Method(v, n))]

    def method(self, eng, st, v, n, args, kw, e):
        raise Unsupported("element." + n)


class Doc(object):
    """elements under construction: the children of one kind of parent, by position"""

    def __init__(self, con, attrs):
        self.con, self.attrs = con, attrs      # name of the kind: its attributes

    def ghosts(self):
        out = {}
        for kids, attrs in self.attrs.items():
            out["@%s" % kids] = T(INT, z3.Const("%s_before" % kids, Z))
            for a in ("tag",) + attrs:
                ty = self.type(a)
                out["@%s.%s" % (kids, a)] = T(ty, z3.Const("%s_%s" % (kids, a), ty.sort))
                out["@%s.has.%s" % (kids, a)] = T(BOOLS, z3.Const("%s_has_%s" % (kids, a), BOOLS.sort))
        return out

    def type(self, a):
        return {"meta": METAS, "pairs": GPS}.get(a, STRS)

    def put(self, eng, st, kids, a, at, x):
        q = st.mutate(self.con.ref)
        if "@%s.%s" % (kids, a) not in q.fields:
            raise Unsupported("attribute %s of %s" % (a, kids))
        for f, y in (("@%s.%s" % (kids, a), eng.enc(st, x, self.type(a).args[1])), ("@%s.has.%s" % (kids, a), z3.BoolVal(True))):
            old = q.fields[f]
            q.fields[f] = T(old.ty, z3.Store(old.t, at, y))

    def subelement(self, kids_of):
        def model(eng, st, args, kw, e):
            if len(args) != 2 or not isinstance(args[0], ModelV):
                raise Unsupported("SubElement")
            st = st.copy()
            kids = kids_of(args[0])
            at = st.place(self.con.ref).fields["@" + kids].t
            # attributes not given are absent
            for a in self.attrs[kids]:
                f = "@%s.has.%s" % (kids, a)
                q = st.mutate(self.con.ref)
                q.fields[f] = T(BOOLS, z3.Store(q.fields[f].t, at, False))
            self.put(eng, st, kids, "tag", at, args[1])
            for a, x in kw.items():
                self.put(eng, st, kids, a, at, x)
            st.mutate(self.con.ref).fields["@" + kids] = T(INT, at + 1)
            return [(st, ModelV(Child(), doc=self, kids=kids, at=at))]
        return model

    def now(self, st, kids, a=None):
        return st.place(self.con.ref).fields["@" + kids + ("." + a if a else "")].t

    def attr(self, st, kids, a, i, x):
        """the i-th child has a with value x"""
        return z3.And(self.now(st, kids, "has." + a)[i], self.now(st, kids, a)[i] == x)


class Aligns(object):
    has_iter = True

    def iterate(self, eng, st, v):
        g = v.gp
        return [(st, It(NUMBER(g), lambda k: Tupl([Tupl([T(STR, FROM(g, k)), T(STR, TO(g, k))]), T(STR, REL(g, k))]),
                        None, v, "aligns", key=lambda k: k))]


class GpMethod(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name in ("alignments_iter", "alignments") and not args and not kw:
            return [(st, ModelV(Aligns(), gp=v.gp))]
        raise Unsupported("graph pair method " + v.name)


class Graph(object):
    def getattr(self, eng, st, v, n, e):
        if n == "id":
            return [(st, T(STR, GID[v.side](v.gp)))]
        raise Unsupported("graph." + n)


def gp_attr(eng, st, v, n, e):
    if n == "_graphs":
        return [(st, Tupl([ModelV(Graph(), gp=v.t, side=s) for s in ("source", "target")]))]
    if n == "_banks":
        return [(st, Tupl([T(BANK, SRC(v.t)), T(BANK, TGT(v.t))]))]
    if n == "_meta_data":
        return [(s, T(META, MOF(v.t)) if b else NONE) for s, b in eng.split(st, HASM(v.t))]
    if n.startswith("get_") and not n.endswith("_iter"):
        return None
    return [(st, ModelV(GpMethod(), gp=v.t, name=n))]


class Generator(Contract):
    props = ("C17",)
    attrs = {}

    def setup(self, c):
        self.ref = c.obj(GEN, self.doc.ghosts())
        for k in self.attrs:
            c.assume(self.doc.now(c.st, k) >= 0)
        self.st0 = c.st.copy()
        return [self.ref] + self.args(c)

    def before(self, kids, a=None):
        return self.doc.now(self.st0, kids, a)

    def kept(self, c, st, kids, what=None):
        """the children present before are as they were"""
        i = z3.Int("i")
        for a in ("tag",) + self.attrs[kids]:
            for f in (a, "has." + a):
                x, y = self.doc.now(st, kids, f), self.before(kids, f)
                yield "earlier-%s-%s" % (kids, f), forall(i, z3.Implies(z3.And(0 <= i, i < self.before(kids)), x[i] == y[i]), [x[i]])

    def models(self, c):
        self.doc = Doc(self, self.attrs)
        return {"xml.etree.cElementTree.SubElement": self.doc.subelement(self.kids_of), "attr:tuple": pair_attr,
                "attr:" + GP.key: gp_attr}


class NodePairs(Generator):
    """one element for each alignment, none else"""
    target = GEN + "._gen_node_pairs"
    cases = ("pair",)
    attrs = {"np": ("from_node_id", "to_node_id", "relation", "text")}

    def kids_of(self, parent):
        return "np"

    def args(self, c):
        self.gp = c.term(GP, "graph_pair")
        c.assume(NUMBER(self.gp.t) >= 0)
        return [ModelV(Parent()), self.gp]

    def made(self, st, n):
        i, b = z3.Int("i"), self.before("np")
        g = self.gp.t
        yield "number", self.doc.now(st, "np") == b + n
        for a, x in (("tag", lambda k: lit("node_pair")), ("from_node_id", lambda k: FROM(g, k)),
                     ("to_node_id", lambda k: TO(g, k)), ("relation", lambda k: REL(g, k))):
            f = self.doc.now(st, "np", a)
            yield a, forall(i, z3.Implies(z3.And(b <= i, i < b + n), self.doc.attr(st, "np", a, i, x(i - b))), [f[i]])
        f = self.doc.now(st, "np", "has.text")
        yield "no-text", forall(i, z3.Implies(z3.And(b <= i, i < b + n), z3.Not(f[i])), [f[i]])

    def inv(self, L):
        if L.it is None:
            return
        for k, (l, _) in enumerate(list(self.made(self.st0, z3.IntVal(0)))):
            yield l, lambda V, k=k: list(self.made(V.st, V.k))[k][1]
        for k, (l, _) in enumerate(list(self.kept(None, self.st0, "np"))):
            yield l, lambda V, k=k: list(self.kept(None, V.st, "np"))[k][1]

    def post(self, c, st, ret):
        for x in self.made(st, NUMBER(self.gp.t)):
            yield x
        for x in self.kept(c, st, "np"):
            yield x


class Relations(Generator):
    """one element for each relation, in order"""
    target = GEN + "._gen_node_relations"
    cases = ("corpus",)
    attrs = {"top": ("text",), "rel": ("text",)}

    def kids_of(self, parent):
        return "top" if isinstance(parent.model, Parent) else "rel"

    def args(self, c):
        rels = c.seq("relations", STR)
        self.a, self.n = c.eng.as_arr(c.st, rels)
        return [ModelV(Parent()), c.obj("daeso.pgc.corpus.ParallelGraphCorpus", {"_relations": rels, "_meta_data": NONE})]

    def made(self, st, n):
        i, b = z3.Int("i"), self.before("rel")
        yield "number", self.doc.now(st, "rel") == b + n
        f = self.doc.now(st, "rel", "tag")
        yield "tag", forall(i, z3.Implies(z3.And(b <= i, i < b + n), f[i] == lit("relation")), [f[i]])
        f = self.doc.now(st, "rel", "text")
        yield "text", forall(i, z3.Implies(z3.And(b <= i, i < b + n), self.doc.attr(st, "rel", "text", i, self.a[i - b])), [f[i]])

    def inv(self, L):
        if L.it is None:
            return
        for k, (l, _) in enumerate(list(self.made(self.st0, z3.IntVal(0)))):
            yield l, lambda V, k=k: list(self.made(V.st, V.k))[k][1]
        for k, (l, _) in enumerate(list(self.kept(None, self.st0, "rel"))):
            yield l, lambda V, k=k: list(self.kept(None, V.st, "rel"))[k][1]

    def post(self, c, st, ret):
        b = self.before("top")
        yield "one-list-of-relations", self.doc.now(st, "top") == b + 1
        yield "its-tag", self.doc.now(st, "top", "tag")[b] == lit("node_relations")
        for x in self.made(st, self.n):
            yield x
        for x in self.kept(c, st, "rel"):
            yield x
        for x in self.kept(c, st, "top"):
            yield x


class Meta(object):
    """an element of meta data"""

    def type_of(self, v):
        return META

    def enc(self, v, ty):
        return v.t

    def zlen(self, eng, st, v):
        return NCHILD(v.t)

    def truth(self, eng, st, v):
        return [(st, NCHILD(v.t) > 0)]

    def getattr(self, eng, st, v, n, e):
        if n == "attrib":
            return [(st, ModelV(Attrib(), t=v.t))]
        if n == "text":
            return [(st, T(OPT(STR), TEXT(v.t)))]
        raise Unsupported("element." + n)


class Attrib(object):
    def truth(self, eng, st, v):
        return [(st, HASATT(v.t))]


def content(m):
    """meta data that is not empty"""
    return z3.Or(NCHILD(m) > 0, HASATT(m))


class AlignedGraphs(Generator):
    """one element for each graph pair with its graphs, alignments and meta data; its banks have the ids of
    the same files among the banks returned, each file once, each with an id of its own"""
    props = ("C16", "C17")
    target = GEN + "._gen_aligned_graphs"
    retry = True
    cases = ("corpus",)
    attrs = {"top": ("text",), "gp": ("n", "from_graph_id", "to_graph_id", "from_bank_id", "to_bank_id", "meta", "pairs", "text")}

    def kids_of(self, parent):
        return "top" if isinstance(parent.model, Parent) else "gp"

    def models(self, c):
        m = Generator.models(self, c)

        def node_pairs(eng, st, env, e):
            # contract NodePairs: what is written for the graph pair
            st = st.copy()
            el, g = env["graph_pair_elem"], env["graph_pair"]
            self.doc.put(eng, st, "gp", "pairs", el.at, g)
            return [(st, NONE)]

        def set_id(eng, st, v, name, x, e):
            if name != "_id":
                raise Unsupported("attribute " + name)
            st = st.copy()
            q = st.mutate(self.ref)
            q.fields["@id"] = T(IDS, z3.Store(q.fields["@id"].t, v.t, eng.enc(st, x, STR)))
            return [(st, None)]

        def get_id(eng, st, v, name, e):
            if name != "_id":
                raise Unsupported("attribute " + name)
            return [(st, T(STR, st.place(self.ref).fields["@id"].t[v.t]))]

        def attr(eng, st, v, n, e):
            if n == "_meta_data":
                return [(s, ModelV(Meta(), t=MOF(v.t)) if b else NONE) for s, b in eng.split(st, HASM(v.t))]
            return gp_attr(eng, st, v, n, e)
        m.update({"fn:" + GEN + "._gen_node_pairs": node_pairs, "setattr:" + BANK.key: set_id, "attr:" + BANK.key: get_id,
                  "attr:" + GP.key: attr, "eq:" + BANK.key: lambda eng, st, a, b: [(st, CLS(a.t) == CLS(b.t))]})
        return m

    def setup(self, c):
        a = Generator.setup(self, c)
        c.st.mutate(self.ref).fields["@id"] = T(IDS, z3.Const("ids_before", IDS.sort))
        return a

    def args(self, c):
        l = c.seq("corpus", GP)
        self.a, self.n = c.eng.as_arr(c.st, l)
        i = z3.Int("i")
        c.assume(forall(i, INT_OF(STR_OF(i)) == i, [STR_OF(i)]))
        m = z3.Const("m", META.sort)
        c.assume(forall(m, NCHILD(m) >= 0, [NCHILD(m)]))
        corpus = c.obj("daeso.pgc.corpus.ParallelGraphCorpus", {"__list__": l, "_relations": c.seq("r", STR), "_meta_data": NONE,
                                                                 "_graph_loading": NONE})
        return [ModelV(Parent()), corpus]

    def ids(self, st):
        return st.place(self.ref).fields["@id"].t

    def made(self, st, n):
        i, b = z3.Int("i"), self.before("gp")
        yield "number", self.doc.now(st, "gp") == b + n
        for a, x in (("tag", lambda k: lit("graph_pair")), ("n", lambda k: STR_OF(k + 1)),
                     ("from_graph_id", lambda k: GID["source"](self.a[k])), ("to_graph_id", lambda k: GID["target"](self.a[k])),
                     ("pairs", lambda k: self.a[k])):
            f = self.doc.now(st, "gp", a)
            yield a, forall(i, z3.Implies(z3.And(b <= i, i < b + n), self.doc.attr(st, "gp", a, i, x(i - b))), [f[i], self.doc.now(st, "gp", "has." + a)[i]])
        f, h = self.doc.now(st, "gp", "meta"), self.doc.now(st, "gp", "has.meta")
        g = lambda k: self.a[k - b]
        yield "meta-data", forall(i, z3.Implies(z3.And(b <= i, i < b + n), z3.And(
            z3.Implies(h[i], z3.And(HASM(g(i)), f[i] == MOF(g(i)))),
            z3.Implies(z3.And(HASM(g(i)), content(MOF(g(i)))), h[i]))), [h[i]])

    def banks(self, st, n, arr, m):
        """banks of the first n graph pairs, given the m banks in arr"""
        i, b = z3.Int("i"), self.before("gp")
        for a, f in (("from_bank_id", SRC), ("to_bank_id", TGT)):
            x, h = self.doc.now(st, "gp", a), self.doc.now(st, "gp", "has." + a)
            q = INT_OF(x[i]) - 1
            yield a, forall(i, z3.Implies(z3.And(b <= i, i < b + n), z3.And(
                h[i], 0 <= q, q < m, x[i] == self.ids(st)[arr[q]], CLS(arr[q]) == CLS(f(self.a[i - b])))), [x[i], h[i]])

    def own_ids(self, st, arr, m):
        j = z3.Int("j")
        yield "own-id", forall(j, z3.Implies(z3.And(0 <= j, j < m), self.ids(st)[arr[j]] == STR_OF(j + 1)), [arr[j]])

    def distinct(self, arr, m):
        i, j = z3.Ints("i j")
        yield "one-per-file", forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), CLS(arr[i]) != CLS(arr[j])),
                                     [z3.MultiPattern(arr[i], arr[j])])

    def inv(self, L):
        inner = L.outer is not None and L.outer.it is not None
        if L.it is None:
            return
        j = z3.Int("j")
        ds = [v for v, x in sorted(L.head.env.items()) if isinstance(x, Ref) and L.head.place(x).kind == "dict"]
        ls = [v for v, x in sorted(L.head.env.items()) if isinstance(x, Ref) and L.head.place(x).kind == "list"]
        if inner:
            for v, x in sorted(L.head.env.items()):
                if isinstance(x, T) and x.ty == BANK:
                    for l in ls:
                        for d in ds:
                            # where the bank listed is found among those known
                            def listed(V, x=x, l=l, d=d):
                                arr, m = V.eng.as_arr(L.head, L.head.env[l], BANK)
                                dm = V.eng.as_dict(L.head, L.head.env[d], BANK, BANK)[0]
                                w = fun("enum_idx_" + BANK.key, arr_sort_of(dm), BANK.sort, Z)
                                return forall(j, z3.Implies(z3.And(0 <= j, j < m, dm[arr[j]], w(dm, arr[j]) < V.k),
                                                            CLS(arr[j]) != CLS(x.t)), [arr[j]])
                            yield "not-listed-so-far[%s,%s,%s]" % (v, l, d), listed
                    yield "no-match-so-far[%s]" % v, lambda V, x=x: forall(j, z3.Implies(z3.And(
                        0 <= j, j < V.k), CLS(L.it.elem(j).t) != CLS(x.t)), [L.it.elem(j).t])
            return
        b = z3.Const("b", BANK.sort)
        for k, (l, _) in enumerate(list(self.made(self.st0, z3.IntVal(0)))):
            yield l, lambda V, k=k: list(self.made(V.st, V.k))[k][1]
        for kids in self.attrs:
            for k, (l, _) in enumerate(list(self.kept(None, self.st0, kids))):
                yield l, lambda V, k=k, kids=kids: list(self.kept(None, V.st, kids))[k][1]
        for l in ls:
            A = lambda V, l=l: V.eng.as_arr(V.st, V.st.env[l], BANK)
            yield "own-id[%s]" % l, lambda V, A=A: list(self.own_ids(V.st, *A(V)))[0][1]
            yield "one-per-file[%s]" % l, lambda V, A=A: list(self.distinct(*A(V)))[0][1]
            for k, n in enumerate(("from", "to")):
                yield "%s-bank[%s]" % (n, l), lambda V, A=A, k=k: list(self.banks(V.st, V.k, *A(V)))[k][1]
            for d in ds:
                D = lambda V, d=d: V.dic(d, BANK, BANK)

                def known(V, A=A, D=D):
                    (dm, mp), (arr, m) = D(V), A(V)
                    q = INT_OF(self.ids(V.st)[mp[b]]) - 1
                    return forall(b, z3.Implies(dm[b], z3.And(
                        CLS(mp[b]) == CLS(b), 0 <= q, q < m, arr[q] == mp[b])), [mp[b]])
                yield "mapped-to-listed[%s,%s]" % (d, l), known
                yield "listed-are-known[%s,%s]" % (d, l), lambda V, A=A, D=D: forall(j, z3.Implies(z3.And(
                    0 <= j, j < A(V)[1]), z3.And(D(V)[0][A(V)[0][j]], D(V)[1][A(V)[0][j]] == A(V)[0][j])), [A(V)[0][j]])

    def post(self, c, st, ret):
        b = self.before("top")
        yield "one-list-of-pairs", self.doc.now(st, "top") == b + 1
        yield "its-tag", self.doc.now(st, "top", "tag")[b] == lit("aligned_graphs")
        for x in self.made(st, self.n):
            yield x
        arr, m = c.eng.as_arr(st, c.eng.listref(st, ret), BANK)
        for f in (self.banks(st, self.n, arr, m), self.own_ids(st, arr, m), self.distinct(arr, m)):
            for x in f:
                yield x
        for kids in sorted(self.attrs):
            for x in self.kept(c, st, kids):
                yield x


FPATH = fun("bank_path", BANK.sort, S_)
FORMAT = fun("bank_format", BANK.sort, S_)
BID = fun("bank_id", BANK.sort, S_)
REALPATH = fun("realpath", S_, S_)
RELPATH = fun("relpath", S_, S_, S_)


class Graphbanks(Generator):
    """one element for each bank, in order, with its id, format and path"""
    target = GEN + "._gen_graphbanks"
    cases = ("absolute", "relative")
    attrs = {"file": ("id", "format", "text")}

    def kids_of(self, parent):
        return "file"

    def models(self, c):
        m = Generator.models(self, c)

        def attr(eng, st, v, n, e):
            f = {"_id": BID, "_format": FORMAT, "_file_path": FPATH}.get(n)
            if f is None:
                raise Unsupported("attribute " + n)
            return [(st, T(STR, f(v.t)))]
        m.update({"attr:" + BANK.key: attr,
                  "os.path.realpath": lambda eng, st, a, kw, e: [(st, T(STR, REALPATH(eng.enc(st, a[0], STR))))],
                  "os.path.relpath": lambda eng, st, a, kw, e: [(st, T(STR, RELPATH(*[eng.enc(st, x, STR) for x in a])))]})
        return m

    def args(self, c):
        l = c.seq("banks", BANK)
        self.a, self.n = c.eng.as_arr(c.st, l)
        self.dir = c.term(STR, "out_dir")
        x = z3.Const("x", S_)
        # a path without links is its own real path
        c.assume(forall(x, REALPATH(REALPATH(x)) == REALPATH(x), [REALPATH(x)]))
        return [ModelV(Parent()), l, self.dir, B(c.case == "absolute")]

    def made(self, st, n, absolute):
        i, b = z3.Int("i"), self.before("file")
        yield "number", self.doc.now(st, "file") == b + n
        path = FPATH if absolute else lambda g: RELPATH(FPATH(g), REALPATH(self.dir.t))
        for a, x in (("tag", lambda g: lit("file")), ("id", BID), ("format", FORMAT), ("text", path)):
            f, h = self.doc.now(st, "file", a), self.doc.now(st, "file", "has." + a)
            yield a, forall(i, z3.Implies(z3.And(b <= i, i < b + n), self.doc.attr(st, "file", a, i, x(self.a[i - b]))),
                            [f[i], h[i]])

    def inv(self, L):
        if L.it is None:
            return
        ab = self.case_abs
        for v, x in sorted(L.head.env.items()):
            if isinstance(x, T) and x.ty == STR:
                yield "directory[%s]" % v, lambda V, v=v: z3.Or(V.st.env[v].t == self.dir.t, V.st.env[v].t == REALPATH(self.dir.t))
        for k, (l, _) in enumerate(list(self.made(self.st0, z3.IntVal(0), ab))):
            yield l, lambda V, k=k: list(self.made(V.st, V.k, ab))[k][1]
        for k, (l, _) in enumerate(list(self.kept(None, self.st0, "file"))):
            yield l, lambda V, k=k: list(self.kept(None, V.st, "file"))[k][1]

    def setup(self, c):
        self.case_abs = c.case == "absolute"
        return Generator.setup(self, c)

    def post(self, c, st, ret):
        for x in self.made(st, self.n, self.case_abs):
            yield x
        for x in self.kept(c, st, "file"):
            yield x


GR = OP("AnyGraph")
OPTS = OPT(STR)
NEW = fun("new_graph_pair", BANK.sort, BANK.sort, GR.sort, GR.sort, GP.sort)


class Recorder(object):
    """a graph pair, or a graph: what is asked of it is noted on the parser"""

    def type_of(self, v):
        return v.ty

    def enc(self, v, ty):
        return v.t

    def truth(self, eng, st, v):
        return [(st, fun("graph_pair_truth", v.t.sort(), z3.BoolSort())(v.t))]

    def getattr(self, eng, st, v, n, e):
        return [(st, Method(v, n))]

    def method(self, eng, st, v, n, args, kw, e):
        st = st.copy()
        q = st.mutate(v.con.ref)
        if n == "add_align" and len(args) == 2 and isinstance(args[0], Tupl) and not kw:
            for f, x in zip(("@from", "@to", "@rel"), args[0].items + [args[1]]):
                q.fields[f] = T(OPTS, eng.enc(st, x, OPTS))
            q.fields["@on"] = T(GP, v.t)
            q.fields["@calls"] = T(INT, q.fields["@calls"].t + 1)
            return [(st, NONE)]
        raise Unsupported("graph pair method " + n)

    def setattr(self, eng, st, v, n, x, e):
        if n != "_meta_data":
            raise Unsupported("attribute " + n)
        st = st.copy()
        q = st.mutate(v.con.ref)
        q.fields["@on"] = T(GP, v.t)
        q.fields["@meta"] = T(META, eng.enc(st, x, META))
        q.fields["@calls"] = T(INT, q.fields["@calls"].t + 1)
        return [(st, None)]


def new_pair(eng, st, args, kw, e):
    if len(args) != 2 or kw:
        raise Unsupported("Pair arguments")
    return [(st, Tupl(list(args)))]


from contracts.loading import Elem


class Read(Contract):
    props = ("C17",)
    cases = ("parser",)

    def models(self, c):
        return {"new:daeso.pair.Pair": new_pair, "attr:tuple": pair_attr}

    def setup(self, c):
        self.att = c.dict("attrib", STR, STR)
        p = c.st.place(self.att)
        self.ad, self.am = p.dom, p.mp
        self.text = c.term(STR, "text")
        self.elem = ModelV(Elem(self.att, self.text))
        self.gp = z3.Const("current_pair", GP.sort)
        self.rels = c.seq("relations", STR)
        self.ra, self.rn = c.eng.as_arr(c.st, self.rels)
        none = lambda n: T(OPTS, z3.Const(n, OPTS.sort))
        self.ref = c.obj(PARSER, {
            "graph_pair": ModelV(Recorder(), con=self, t=self.gp, ty=GP), "relations": self.rels, "in_meta_data": B(c.case == "meta"),
            "@from": none("f0"), "@to": none("t0"), "@rel": none("r0"), "@on": T(GP, z3.Const("on0", GP.sort)),
            "@meta": T(META, z3.Const("m0", META.sort)), "@calls": I(0)})
        return [self.ref] + self.args(c)

    def args(self, c):
        return [self.elem]

    def field(self, st, n):
        return st.place(self.ref).fields[n].t


class ReadNodePair(Read):
    """the alignment written is added to the current graph pair"""
    target = PARSER + ".handle_node_pair_start"

    def post(self, c, st, ret):
        yield "one-alignment", self.field(st, "@calls") == 1
        yield "of-the-current-pair", self.field(st, "@on") == self.gp
        for f, a in (("@from", "from_node_id"), ("@to", "to_node_id"), ("@rel", "relation")):
            x = self.field(st, f)
            yield a, z3.Implies(self.ad[lit(a)], x == c.eng.enc(st, T(STR, self.am[lit(a)]), OPTS))


class ReadRelation(Read):
    """the relation is added to those read"""
    target = PARSER + ".handle_relation_elem_end"

    def post(self, c, st, ret):
        a, n = c.eng.as_arr(st, st.place(self.ref).fields["relations"], STR)
        i = z3.Int("i")
        (s, txt), = c.eng.call_method(st.copy(), self.text, "strip", [], {}, None)
        yield "one-more", n == self.rn + 1
        yield "relations", forall(i, z3.Implies(z3.And(0 <= i, i <= self.rn), a[i] == z3.If(
            i < self.rn, self.ra[i], c.eng.enc(s, txt, STR))), [a[i]])


class ReadMeta(Read):
    """the element is the meta data of the current graph pair"""
    target = PARSER + ".handle_graph_meta_data_elem_end"
    cases = ("meta",)

    def args(self, c):
        self.m = c.term(META, "element")
        return [self.m]

    def post(self, c, st, ret):
        yield "once", self.field(st, "@calls") == 1
        yield "of-the-current-pair", self.field(st, "@on") == self.gp
        yield "the-element", self.field(st, "@meta") == self.m.t
        (_, x), = c.eng.truth(st, st.place(self.ref).fields["in_meta_data"])
        yield "end-of-meta-data", z3.Not(x) if z3.is_expr(x) else z3.BoolVal(not x)


class ReadGraphPair(Read):
    """a graph pair of the banks and graphs named is appended to the corpus, and known to its stubs, if any"""
    target = PARSER + ".handle_graph_pair_elem_start"
    cases = ("all", "sparse", "none")

    def models(self, c):
        m = Read.models(self, c)
        self.got_b = [z3.Const(n + "_bank", BANK.sort) for n in ("from", "to")]
        self.got_g = [z3.Const(n + "_graph", GR.sort) for n in ("from", "to")]

        # contracts loading.GetBanks, loading.GetGraphs
        def banks(eng, st, env, e):
            return [(st, Tupl([T(BANK, b) for b in self.got_b]))]

        def graphs(eng, st, env, e):
            b = env["banks"]
            if not isinstance(b, Tupl) or len(b.items) != 2:
                raise Unsupported("banks")
            # graphs of other banks are others
            return [(st, Tupl([T(GR, fun("graph_in", GR.sort, BANK.sort, GR.sort)(g, eng.enc(st, x, BANK)))
                               for g, x in zip(self.got_g, b.items)]))]

        def new(eng, st, args, kw, e):
            if len(args) != 2 or kw or not all(isinstance(a, Tupl) for a in args):
                raise Unsupported("GraphPair arguments")
            ts = [eng.enc(st, x, BANK) for x in args[0].items] + [eng.enc(st, x, GR) for x in args[1].items]
            return [(st, T(GP, NEW(*ts)))]

        class AddClient(object):
            def call(_, eng, st, v, args, kw, e):
                if v.name != "add_client" or len(args) != 1 or kw:
                    raise Unsupported("graph." + v.name)
                st = st.copy()
                q = st.mutate(self.ref)
                n = q.fields["@calls"].t
                for f, x in (("@stubs", v.graph), ("@clients", eng.enc(st, args[0], GP))):
                    q.fields[f] = T(q.fields[f].ty, z3.Store(q.fields[f].t, n, x))
                q.fields["@calls"] = T(INT, n + 1)
                return [(st, NONE)]
        m.update({"fn:" + PARSER + "._get_banks": banks, "fn:" + PARSER + "._get_graphs": graphs,
                  "new:daeso.pgc.graphpair.GraphMatching": new, "new:daeso.pgc.graphpair.GraphPair": new, "isinstance:" + GP.key: lambda eng, st, v, cls: z3.BoolVal(True),
                  "attr:" + GR.key: lambda eng, st, v, n, e: [(st, ModelV(AddClient(), graph=v.t, name=n))]})
        return m

    def setup(self, c):
        a = Read.setup(self, c)
        q = c.st.mutate(self.ref)
        l = c.seq("pairs", GP)
        self.a, self.n = c.eng.as_arr(c.st, l)
        self.corpus = c.obj("daeso.pgc.corpus.ParallelGraphCorpus", {"__list__": l, "_relations": c.seq("r", STR), "_meta_data": NONE,
                                                                     "_graph_loading": NONE})
        q.fields["pg_corpus"] = self.corpus
        v = {"all": "LOAD_ALL", "sparse": "LOAD_SPARSE", "none": "LOAD_NONE"}[c.case]
        (_, q.fields["graph_loading"]), = c.eng.mod_attr(c.st, "daeso.pgc.corpus", v, None)
        for f, ty in (("@stubs", Ty("arr", INT, GR)), ("@clients", GPS)):
            q.fields[f] = T(ty, z3.Const(f + "0", ty.sort))
        return a

    def post(self, c, st, ret):
        G = [fun("graph_in", GR.sort, BANK.sort, GR.sort)(g, b) for g, b in zip(self.got_g, self.got_b)]
        x = NEW(*(self.got_b + G))
        b, m = c.eng.as_arr(st, st.place(self.corpus).fields["__list__"], GP)
        i = z3.Int("i")
        yield "one-more", m == self.n + 1
        yield "graph-pairs", forall(i, z3.Implies(z3.And(0 <= i, i <= self.n), b[i] == z3.If(i < self.n, self.a[i], x)), [b[i]])
        yield "current-pair", c.eng.enc(st, st.place(self.ref).fields["graph_pair"], GP) == x
        if c.case == "all":
            yield "no-stubs", self.field(st, "@calls") == 0
            return
        s, t = self.field(st, "@stubs"), self.field(st, "@clients")
        yield "two-stubs", self.field(st, "@calls") == 2
        yield "clients", z3.And(t[0] == x, t[1] == x)
        yield "of-both-graphs", z3.Or(z3.And(s[0] == G[0], s[1] == G[1]), z3.And(s[0] == G[1], s[1] == G[0]))


CONTRACTS = [NodePairs, Relations, AlignedGraphs, Graphbanks, ReadNodePair, ReadRelation, ReadMeta, ReadGraphPair]
