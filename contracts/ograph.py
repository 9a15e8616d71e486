"""ordered directed graphs: successors and predecessors mirror each other"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, enum_fn, card_fn
from pyvc.spec import *
from pyvc.verify import Contract

NODE, VAL = OP("Node"), OP("Val")
AT = DICT(STR, VAL)
ROW = DICT(NODE, AT)
ADJ = DICT(NODE, ROW)
N_ = NODE.sort
Q = "daeso.graph.ograph.ODiGraph"


class OG(Contract):
    props = ("C11",)
    cases = ("plain",)
    cls = Q

    def setup(self, c):
        o = c.obj(self.cls, {})
        p = c.st.place(o)
        self.succ, self.pred = c.dict("succ", NODE, ROW), c.dict("pred", NODE, ROW)
        self.node = c.dict("node", NODE, AT)
        p.fields.update(succ=self.succ, adj=self.succ, edge=self.succ, pred=self.pred, node=self.node,
                        graph=c.dict("graph", STR, VAL))
        self.ref = o
        self.S, self.P, self.D = self.read(c.st)
        c.assume(self.mirror(self.S, self.P, self.D))
        return self.args(c)

    def read(self, st):
        r = []
        f = st.place(self.ref).fields
        for k in ("succ", "pred", "node"):
            p = st.place(f[k])
            r.append((p.dom, p.mp))
        return r

    def edge(self, S, u, v):
        return z3.And(S[0][u], ROW.get(0, S[1][u])[v])

    def data(self, S, u, v):
        return ROW.get(1, S[1][u])[v]

    def mirror(self, S, P, D):
        u, v = z3.Consts("gu gv", N_)
        return z3.And(
            forall(u, z3.And(S[0][u] == P[0][u], S[0][u] == D[0][u]), [S[0][u], P[0][u], D[0][u]]),
            forall([u, v], self.edge(S, u, v) == self.edge(P, v, u),
                   [ROW.get(0, S[1][u])[v], ROW.get(0, P[1][v])[u]]),
            forall([u, v], z3.Implies(self.edge(S, u, v), z3.And(S[0][v], self.data(S, u, v) == self.data(P, v, u))),
                   [ROW.get(0, S[1][u])[v], ROW.get(0, P[1][v])[u]]))


    def new_data(self, d, u, v, old=None):
        """attributes of u after adding edge/node: old ones overridden by the given"""
        return None

    def attrs(self, c):
        """given attributes, as (value, dom, map)"""
        d = c.dict("given", STR, VAL)
        p = c.st.place(d)
        self.gd, self.gm = p.dom, p.mp
        return d

    def merged(self, new, had, old):
        """new attributes are the old ones (if had) updated with the given ones"""
        k = z3.Const("gk", STR.sort)
        nd, nm, od, om = AT.get(0, new), AT.get(1, new), AT.get(0, old), AT.get(1, old)
        gd, gm = self.given(k)
        return forall(k, z3.And(nd[k] == z3.Or(gd, z3.And(had, od[k])), z3.Implies(nd[k], nm[k] == z3.If(
            gd, gm, om[k]))), [nd[k], nm[k]])

    def given(self, k):
        if self.gd is None:
            return z3.BoolVal(False), z3.Const("novalue", VAL.sort)
        return self.gd[k], self.gm[k]


class AddEdge(OG):
    target = Q + ".add_edge"
    cases = ("plain", "attributes", "keyword")
    strict = False

    def args(self, c):
        self.u, self.v = z3.Const("u", N_), z3.Const("v", N_)
        self.gd = None
        a = [self.ref, T(NODE, self.u), T(NODE, self.v)]
        if c.case == "attributes":
            d = self.attrs(c)
            return [a, {"attr_dict": d}]
        if c.case == "keyword":
            w = z3.Const("weight", VAL.sort)
            self.gd = z3.Store(z3.K(STR.sort, z3.BoolVal(False)), lit("weight"), z3.BoolVal(True))
            self.gm = z3.K(STR.sort, w)
            return [a, {"weight": T(VAL, w)}]
        return a

    def ends(self, x, y):
        return z3.And(x == self.u, y == self.v)

    def post(self, c, st, ret):
        S, P, D = self.read(st)
        for z in self.common(S, P, D, self.ends, lambda x: z3.Or(x == self.u, x == self.v)):
            yield z
        if self.strict:
            yield "only-between-existing-nodes", z3.And(self.S[0][self.u], self.S[0][self.v])
        yield "data-of-the-edge", self.merged(self.data(S, self.u, self.v), self.edge(self.S, self.u, self.v),
                                              self.data(self.S, self.u, self.v))
        for z in self.node_data(D):
            yield z

    def node_data(self, D):
        x, k = z3.Const("gx", N_), z3.Const("gk", STR.sort)
        yield "node-attributes-unchanged", forall(x, z3.Implies(self.D[0][x], D[1][x] == self.D[1][x]), [D[1][x]])
        yield "new-nodes-have-no-attributes", forall([x, k], z3.Implies(
            z3.And(D[0][x], z3.Not(self.D[0][x])), z3.Not(AT.get(0, D[1][x])[k])), [AT.get(0, D[1][x])[k]])

    def common(self, S, P, D, ends, mine):
        x, y = z3.Consts("gx gy", N_)
        yield "successors-and-predecessors-mirror", self.mirror(S, P, D)
        yield "edges-after", forall([x, y], self.edge(S, x, y) == z3.Or(
            self.edge(self.S, x, y), ends(x, y)), [ROW.get(0, S[1][x])[y]])
        yield "nodes-after", forall(x, S[0][x] == z3.Or(self.S[0][x], mine(x)), [S[0][x]])
        yield "data-of-other-edges-unchanged", forall([x, y], z3.Implies(z3.And(
            self.edge(self.S, x, y), z3.Not(ends(x, y))), self.data(S, x, y) == self.data(self.S, x, y)),
            [ROW.get(1, S[1][x])[y]])


NOT = lambda *a: z3.BoolVal(False)


class AddNode(OG):
    target = Q + ".add_node"
    cases = ("plain", "attributes")

    def args(self, c):
        self.n = z3.Const("n", N_)
        self.gd = None
        a = [self.ref, T(NODE, self.n)]
        if c.case == "attributes":
            return [a, {"attr_dict": self.attrs(c)}]
        return a

    def mine(self, x):
        return x == self.n

    def post(self, c, st, ret):
        S, P, D = self.read(st)
        for z in AddEdge.common(self, S, P, D, NOT, self.mine):
            yield z
        yield "attributes-updated", self.merged(D[1][self.n], self.D[0][self.n], self.D[1][self.n])
        x = z3.Const("gx", N_)
        yield "other-attributes-unchanged", forall(x, z3.Implies(z3.And(self.D[0][x], x != self.n), D[1][x] == self.D[1][x]),
                                                   [D[1][x]])


class AddNodes(OG):
    target = Q + ".add_nodes_from"
    cases = ("list",)

    def args(self, c):
        s = c.seq("nodes", NODE)
        self.a, self.n = c.eng.as_arr(c.st, s)
        return [self.ref, s]

    def state(self, st, m):
        from pyvc.engine import elems_fn
        el = elems_fn(NODE)(self.a, m)
        S, P, D = self.read(st)
        for z in AddEdge.common(self, S, P, D, NOT, lambda x: el[x]):
            yield z
        for z in AddEdge.node_data(self, D):
            yield z

    def inv(self, L):
        for i, lab in enumerate(l for l, f in self.state(L.head, L.k)):
            yield lab, lambda V, i=i: list(self.state(V.st, V.k))[i][1]

    def post(self, c, st, ret):
        for z in self.state(st, self.n):
            yield z


G = "daeso.graph.daesograph.DaesoGraph"


class DaesoAddEdge(AddEdge):
    target = G + ".add_edge"
    cases = ("label", "attributes")
    cls = G
    strict = True

    def args(self, c):
        self.u, self.v = z3.Const("u", N_), z3.Const("v", N_)
        self.lab = z3.Const("label", VAL.sort)
        a = [self.ref, T(NODE, self.u), T(NODE, self.v), T(VAL, self.lab)]
        self.gd = z3.K(STR.sort, z3.BoolVal(False))
        self.gm = z3.K(STR.sort, self.lab)
        kw = {}
        if c.case == "attributes":
            kw["attr_dict"] = self.attrs(c)
        self.gd = z3.Store(self.gd, lit("label"), z3.BoolVal(True))
        self.gm = z3.Store(self.gm, lit("label"), self.lab)
        return [a, kw]

    def exc(self, c, st, ex):
        if ex.cls != "ValueError":
            return None
        S, P, D = self.read(st)
        return [("a-node-is-missing", z3.Not(z3.And(self.S[0][self.u], self.S[0][self.v]))),
                ("nothing-changed", z3.And(*[z3.And(a[0] == b[0], a[1] == b[1]) for a, b in zip(
                    (S, P, D), (self.S, self.P, self.D))]))]


CONTRACTS = [AddEdge, AddNode, AddNodes, DaesoAddEdge]
