"""Assumed contracts of networkx.DiGraph (1.9.1), as used by GraphMapping and
GraphMatching.  The state of a graph is a set of nodes N and a dictionary ED
from edges (pairs of nodes) to the value of their "relation" attribute."""
import z3
from .vals import *
from .engine import *
from .engine import fun, forall, TH, enum_fn, card_fn

NODE = OP("Node")
REL = OP("Rel")
PR = TUP(NODE, NODE)
ED = DICT(PR, REL)
N_, R_, P_ = NODE.sort, REL.sort, PR.sort
ES, NS = SET(PR).sort, SET(NODE).sort
MS = z3.ArraySort(P_, R_)
p1 = lambda p: PR.get(0, p)
p2 = lambda p: PR.get(1, p)


def deg(E, n):
    """degree; only that it is zero exactly without incident edges"""
    return _deg("deg", lambda a, b: [(a, b), (b, a)])(E, n)


def odeg(E, n):
    return _deg("odeg", lambda a, b: [(a, b)])(E, n)


def ideg(E, n):
    return _deg("ideg", lambda a, b: [(b, a)])(E, n)


def _deg(name, inc):
    f = fun(name, ES, N_, z3.IntSort())
    w = fun(name + "_w", ES, N_, N_)

    def mk():
        E, n, m = z3.Const("E", ES), z3.Const("n", N_), z3.Const("m", N_)
        ax = [forall([E, n], z3.And(f(E, n) >= 0, z3.Implies(f(E, n) > 0, z3.Or(
            *[E[PR.mk(*x)] for x in inc(n, w(E, n))]))), [f(E, n)])]
        for x in inc(n, m):
            ax.append(forall([E, n, m], z3.Implies(E[PR.mk(*x)], f(E, n) > 0),
                             [z3.MultiPattern(f(E, n), PR.mk(*x))]))
        return ax
    TH.add("nx_" + name, mk)
    return f


class View(object):
    """self.succ / self.pred / self.adj and their rows"""

    def __init__(self, d):
        self.d = d      # "succ" or "pred"

    def state(self, st, v):
        p = st.place(v.owner)
        return p.fields["@E"].t, p.fields["@R"].t, p.fields["@N"].t

    def getattr(self, eng, st, v, name, e):
        return [(st, Method(v, name))]

    def row(self, v, x):
        return ModelV(Row(self.d), owner=v.owner, node=x)

    def getitem(self, eng, st, v, i, e):
        E, R, N = self.state(st, v)
        x = eng.enc(st, i, NODE)
        out = []
        for s, b in eng.split(st, N[x]):
            out.append((s, self.row(v, x) if b else Exc("KeyError", i, e.line if e else None)))
        return out

    def contains(self, eng, st, v, x):
        return [(st, self.state(st, v)[2][eng.enc(st, x, NODE)])]

    def method(self, eng, st, v, name, args, kw, e):
        if name == "get":
            E, R, N = self.state(st, v)
            x = eng.enc(st, args[0], NODE)
            out = []
            for s, b in eng.split(st, N[x]):
                out.append((s, self.row(v, x) if b else (args[1] if len(args) > 1 else NONE)))
            return out
        if name == "has_key":
            return [(st, T(BOOL, self.state(st, v)[2][eng.enc(st, args[0], NODE)]))]
        raise Unsupported("view method " + name)


class Row(View):
    """neighbours of a node"""
    has_iter = True

    def edge(self, v, m):
        return PR.mk(v.node, m) if self.d == "succ" else PR.mk(m, v.node)

    def set(self, st, v):
        E = self.state(st, v)[0]
        f = fun("nbr_" + self.d, ES, N_, NS)

        def mk():
            e, n, m = z3.Const("E", ES), z3.Const("n", N_), z3.Const("m", N_)
            pr = PR.mk(n, m) if self.d == "succ" else PR.mk(m, n)
            return [forall([e, n, m], f(e, n)[m] == e[pr], [f(e, n)[m]]),
                    forall([e, n, m], f(e, n)[m] == e[pr], [z3.MultiPattern(f(e, n), e[pr])])]
        TH.add("nbr_" + self.d, mk)
        return f(E, v.node)

    def getitem(self, eng, st, v, i, e):
        E, R, N = self.state(st, v)
        p = self.edge(v, eng.enc(st, i, NODE))
        return [(s, ModelV(Data(), owner=v.owner, edge=p) if b else
                 Exc("KeyError", i, e.line if e else None)) for s, b in eng.split(st, E[p])]

    def contains(self, eng, st, v, x):
        return [(st, self.state(st, v)[0][self.edge(v, eng.enc(st, x, NODE))])]

    def iterate(self, eng, st, v):
        return eng.iterate(st, SetV(NODE, self.set(st, v)))

    def zlen(self, eng, st, v):
        E = self.state(st, v)[0]
        return odeg(E, v.node) if self.d == "succ" else ideg(E, v.node)

    def truth(self, eng, st, v):
        return [(st, self.zlen(eng, st, v) > 0)]

    def nonempty(self, eng, st, v):
        """(state, some neighbour) and (state, None)"""
        E = self.state(st, v)[0]
        out = []
        for s, b in eng.split(st, self.zlen(eng, st, v) > 0):
            if b:
                m = z3.Const(fresh_name("first"), N_)
                s.assume(E[self.edge(v, m)])
                out.append((s, T(NODE, m)))
            else:
                out.append((s, None))
        return out

    def method(self, eng, st, v, name, args, kw, e):
        if name in ("iterkeys", "__iter__"):
            return [(st, ModelV(RowIter(), row=v))]
        if name == "keys":
            return eng.to_list(st, SetV(NODE, self.set(st, v)))
        if name == "get":
            E, R, N = self.state(st, v)
            p = self.edge(v, eng.enc(st, args[0], NODE))
            return [(s, ModelV(Data(), owner=v.owner, edge=p) if b else (
                args[1] if len(args) > 1 else NONE)) for s, b in eng.split(st, E[p])]
        if name == "has_key":
            return [(st, T(BOOL, self.state(st, v)[0][self.edge(v, eng.enc(st, args[0], NODE))]))]
        raise Unsupported("neighbour method " + name)


class RowIter(object):
    has_iter = True

    def getattr(self, eng, st, v, name, e):
        return [(st, Method(v, name))]

    def iterate(self, eng, st, v):
        return v.row.model.iterate(eng, st, v.row)

    def method(self, eng, st, v, name, args, kw, e):
        if name == "__iter__":
            return [(st, v)]
        if name in ("next", "__next__"):
            return [(s, m if m is not None else Exc("StopIteration", None, e.line if e else None))
                    for s, m in v.row.model.nonempty(eng, st, v.row)]
        raise Unsupported("iterator method " + name)


class Data(object):
    """attributes of an edge; only "relation" is known"""

    def key(self, eng, st, i):
        if not (isinstance(i, PStr) and i.s == "relation"):
            raise Unsupported("edge attribute")

    def getattr(self, eng, st, v, name, e):
        return [(st, Method(v, name))]

    def rel(self, st, v):
        if hasattr(v, "value"):
            return v.value
        return st.place(v.owner).fields["@R"].t[v.edge]

    def getitem(self, eng, st, v, i, e):
        self.key(eng, st, i)
        return [(st, T(REL, self.rel(st, v)))]

    def contains(self, eng, st, v, x):
        self.key(eng, st, x)
        return [(st, True)]

    def method(self, eng, st, v, name, args, kw, e):
        if name == "get":
            self.key(eng, st, args[0])
            return [(st, T(REL, self.rel(st, v)))]
        raise Unsupported("edge data method " + name)

    def setitem(self, eng, st, v, i, x, e):
        self.key(eng, st, i)
        q = st.mutate(v.owner)
        q.fields["@R"] = T(q.fields["@R"].ty, z3.Store(q.fields["@R"].t, v.edge, eng.enc(st, x, REL)))
        return [(st, None)]


class Map(object):
    """Ty of the relation map"""
RM = Ty("relmap")


def fields(eng, st, ref):
    p = st.place(ref)
    return p.fields["@E"].t, p.fields["@R"].t, p.fields["@N"].t


def attach(ref, st, E, R, N):
    p = st.place(ref)
    p.fields["@E"], p.fields["@R"], p.fields["@N"] = T(SET(PR), E), T(RM, R), T(SET(NODE), N)
    for nm, d in (("succ", "succ"), ("adj", "succ"), ("pred", "pred"), ("edge", "succ")):
        p.fields[nm] = ModelV(View(d), owner=ref)


def line(e):
    return e.line if e is not None else None


def _put(st, ref, **k):
    q = st.mutate(ref)
    for a, t in k.items():
        q.fields["@" + a] = T(q.fields["@" + a].ty, t)


def remove_edge(eng, st, a, kw, e):
    ref = a[0]
    E, R, N = fields(eng, st, ref)
    p = PR.mk(eng.enc(st, a[1], NODE), eng.enc(st, a[2], NODE))
    out = []
    for s, b in eng.split(st, E[p]):
        if b:
            _put(s, ref, E=z3.Store(E, p, z3.BoolVal(False)))
            out.append((s, NONE))
        else:
            out.append((s, Exc("NetworkXError", None, line(e))))
    return out


def without_fn():
    f = fun("without_node", ES, N_, ES)

    def mk():
        E, n, p = z3.Const("E", ES), z3.Const("n", N_), z3.Const("p", P_)
        return [forall([E, n, p], f(E, n)[p] == z3.And(E[p], p1(p) != n, p2(p) != n), [f(E, n)[p]])]
    TH.add("without_node", mk)
    return f


def remove_node(eng, st, a, kw, e):
    ref = a[0]
    E, R, N = fields(eng, st, ref)
    n = eng.enc(st, a[1], NODE)
    out = []
    for s, b in eng.split(st, N[n]):
        if b:
            _put(s, ref, E=without_fn()(E, n), N=z3.Store(N, n, z3.BoolVal(False)))
            out.append((s, NONE))
        else:
            out.append((s, Exc("NetworkXError", None, line(e))))
    return out


def add_node(eng, st, a, kw, e):
    ref = a[0]
    E, R, N = fields(eng, st, ref)
    if len(a) != 2 or kw:
        raise Unsupported("node attributes")
    _put(st, ref, N=z3.Store(N, eng.enc(st, a[1], NODE), z3.BoolVal(True)))
    return [(st, NONE)]


def add_edge(eng, st, a, kw, e):
    ref = a[0]
    E, R, N = fields(eng, st, ref)
    kw = dict(kw)
    rel = kw.pop("relation", None)
    if kw or len(a) != 3 or rel is None:
        raise Unsupported("edge attributes")
    u, v = eng.enc(st, a[1], NODE), eng.enc(st, a[2], NODE)
    T_ = z3.BoolVal(True)
    _put(st, ref, E=z3.Store(E, PR.mk(u, v), T_), N=z3.Store(z3.Store(N, u, T_), v, T_),
         R=z3.Store(R, PR.mk(u, v), eng.enc(st, rel, REL)))
    return [(st, NONE)]


def _node(eng, st, x):
    return eng.enc(st, x, NODE)


def degree_fn(f):
    def degree(eng, st, a, kw, e):
        E, R, N = fields(eng, st, a[0])
        if len(a) != 2 or kw:
            raise Unsupported("degree of several nodes")
        n = _node(eng, st, a[1])
        # degree of an unknown node is an empty dict (falsy, not 0)
        return [(s, T(INT, f(E, n)) if b else s.alloc(DictP(items={}))) for s, b in eng.split(st, N[n])]
    return degree


def degree_iter(eng, st, a, kw, e):
    E, R, N = fields(eng, st, a[0])
    if len(a) != 2 or kw:
        raise Unsupported("degree of all nodes")
    v = a[1]
    if isinstance(v, T) and v.ty == NODE:
        its = [v]
    else:
        rs = eng.iterate(st, v)
        if len(rs) != 1 or isinstance(rs[0][1], Exc) or rs[0][1].items is None:
            raise Unsupported("degree of unknown nodes")
        st, it = rs[0]
        its = it.items
    outs = [(st, [])]
    for x in its:
        n = _node(eng, st, x)
        nxt = []
        for s, l in outs:
            for s2, b in eng.split(s, N[n]):
                nxt.append((s2, l + [Tupl([x, T(INT, deg(E, n))])] if b else l))
        outs = nxt
    return [(s, Tupl(l)) for s, l in outs]


def nbr_iter(d):
    def f(eng, st, a, kw, e):
        E, R, N = fields(eng, st, a[0])
        n = _node(eng, st, a[1])
        out = []
        for s, b in eng.split(st, N[n]):
            out.append((s, ModelV(RowIter(), row=ModelV(Row(d), owner=a[0], node=n)) if b else
                        Exc("NetworkXError", None, line(e))))
        return out
    return f


def nbrs(d):
    def f(eng, st, a, kw, e):
        out = []
        for s, r in nbr_iter(d)(eng, st, a, kw, e):
            if isinstance(r, Exc):
                out.append((s, r))
            else:
                out.extend(eng.to_list(s, SetV(NODE, r.row.model.set(s, r.row))))
        return out
    return f


def has_edge(eng, st, a, kw, e):
    E, R, N = fields(eng, st, a[0])
    out = [(st, [])]
    ns = []
    for x in a[1:3]:
        nxt = []
        for s, l in out:
            if isinstance(x, T) and x.ty.k == "opt":
                nxt.extend((s2, l + [v]) for s2, v in eng.unopt(s, x, lambda s3, v: [(s3, v)]))
            else:
                nxt.append((s, l + [x]))
        out = nxt
    rs = []
    for s, l in out:
        if any(isinstance(v, (NoneV, Exc)) for v in l):
            rs.append((s, B(False)))      # None is never a node
        else:
            rs.append((s, T(BOOL, E[PR.mk(_node(eng, s, l[0]), _node(eng, s, l[1]))])))
    return rs


def has_node(eng, st, a, kw, e):
    return [(st, T(BOOL, fields(eng, st, a[0])[2][_node(eng, st, a[1])]))]


def getitem(eng, st, a, kw, e):
    v = st.place(a[0]).fields["succ"]
    return v.model.getitem(eng, st, v, a[1], e)


class EdgeIt(object):
    """iterator over all edges, with or without data"""

    def getattr(self, eng, st, v, name, e):
        return [(st, Method(v, name))]

    def iterate(self, eng, st, v):
        E, R, N = fields(eng, st, v.owner)
        en = enum_fn(PR)(E)

        def elem(k):
            p = en[k]
            r = [T(NODE, p1(p)), T(NODE, p2(p))]
            if v.data:
                r.append(ModelV(Data(), owner=v.owner, edge=p, value=R[p]))
            return Tupl(r)
        return [(st, It(card_fn(PR)(E), elem, None, v, "edges", (v.owner.pid,), key=lambda k: en[k]))]

    def zlen(self, eng, st, v):
        return card_fn(PR)(fields(eng, st, v.owner)[0])

    def truth(self, eng, st, v):
        return [(st, self.zlen(eng, st, v) > 0)]


def edges(eng, st, a, kw, e):
    d = kw.get("data")
    rest = {k: x for k, x in kw.items() if k != "data"}
    if len(a) == 3 and d is None:
        d = a[2]
    elif len(a) > 1 or rest:
        raise Unsupported("edges of some nodes")
    if d is not None and not (isinstance(d, T) and (z3.is_true(d.t) or z3.is_false(d.t))):
        raise Unsupported("edges with unknown data flag")
    return [(st, ModelV(EdgeIt(), owner=a[0], data=d is not None and z3.is_true(d.t)))]


def number_of_edges(eng, st, a, kw, e):
    if len(a) != 1 or kw:
        raise Unsupported("number_of_edges")
    return [(st, T(INT, card_fn(PR)(fields(eng, st, a[0])[0])))]


def nx_models(cls="networkx.DiGraph"):
    m = {"remove_edge": remove_edge, "remove_node": remove_node, "add_edge": add_edge,
         "add_node": add_node, "degree": degree_fn(deg), "in_degree": degree_fn(ideg),
         "out_degree": degree_fn(odeg), "degree_iter": degree_iter,
         "successors_iter": nbr_iter("succ"), "neighbors_iter": nbr_iter("succ"),
         "predecessors_iter": nbr_iter("pred"), "successors": nbrs("succ"),
         "neighbors": nbrs("succ"), "predecessors": nbrs("pred"), "has_edge": has_edge,
         "has_successor": has_edge, "has_node": has_node, "__contains__": has_node,
         "__getitem__": getitem, "edges": edges, "edges_iter": edges,
         "number_of_edges": number_of_edges, "size": number_of_edges}
    return {"%s.%s" % (cls, k): f for k, f in m.items()}
