"""graph banks: identity, look-up of graphs"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall
from pyvc.spec import *
from pyvc.verify import Contract

M = "daeso.gb.graphbank."
GRAPH = OP("Graph")
EXISTS = fun("file_exists", STR.sort, z3.BoolSort())
INODE = fun("file_identity", STR.sort, z3.IntSort())
REALPATH = fun("realpath", STR.sort, STR.sort)


def samefile(eng, st, args, kw, e):
    a, b = (eng.enc(st, x, STR) for x in args)
    out = []
    for s, y in eng.split(st, z3.And(EXISTS(a), EXISTS(b))):
        out.append((s, T(BOOL, INODE(a) == INODE(b)) if y else Exc("OSError", None, e.line if e else None)))
    return out


def same(a, b):
    return z3.Or(a == b, z3.And(EXISTS(a), EXISTS(b), INODE(a) == INODE(b)))


class Bank(Contract):
    props = ("C16",)
    cls = "GraphBank"
    cases = ("GraphBank", "SparseGraphBank")

    def models(self, c):
        def realpath(eng, st, args, kw, e):
            return [(st, T(STR, REALPATH(eng.enc(st, args[0], STR))))]
        return {"os.path.samefile": samefile, "os.path.realpath": realpath}

    def bank(self, c, name, cls="GraphBank"):
        p = c.term(STR, "path_" + name)
        d = c.dict("graphs_" + name, STR, GRAPH)
        fmt = c.term(STR, "format_" + name)
        loaded = c.term(BOOL, "loaded_" + name)
        ref = c.obj(M + cls, {"_file_path": p, "_format": fmt, "_id2graph": d, "_loaded": loaded})
        return ref, p.t

    def setup(self, c):
        self.a, self.pa = self.bank(c, "a", c.case)
        return [self.a] + self.args(c)


class Eq(Bank):
    target = M + "GraphBank.__eq__"
    negated = False

    def args(self, c):
        self.b, self.pb = self.bank(c, "b")
        return [self.b]

    def post(self, c, st, ret):
        (_, got), = c.eng.truth(st, ret)
        got = got if z3.is_expr(got) else z3.BoolVal(bool(got))
        yield "equal-iff-same-file", (z3.Not(got) if self.negated else got) == same(self.pa, self.pb)
        for r, p in ((self.a, self.pa), (self.b, self.pb)):
            yield "path-unchanged", c.eng.enc(st, st.place(r).fields["_file_path"], STR) == p


class Ne(Eq):
    target = M + "GraphBank.__ne__"
    negated = True


class Init(Bank):
    """not loaded, without graphs, at the real path"""
    target = M + "GraphBank.__init__"
    cases = ("GraphBank",)

    def setup(self, c):
        self.a = c.obj(M + "GraphBank", {})
        self.p, self.f = c.term(STR, "path"), c.term(STR, "format")
        return [self.a, self.p, self.f]

    def post(self, c, st, ret):
        for n, want, ty in (("get_file_path", REALPATH(self.p.t), STR), ("get_format", self.f.t, STR)):
            for s, r in c.eng.call_method(st.copy(), self.a, n, [], {}, None):
                yield n, c.eng.enc(s, r, ty) == want
        for s, r in c.eng.bi_len(st.copy(), [self.a], {}, None):
            yield "no-graphs", c.eng.enc(s, r, INT) == 0


class GetGraph(Bank):
    props = ("C16", "C18", "C27")
    target = M + "GraphBank.get_graph"

    def args(self, c):
        p = c.st.place(c.st.place(self.a).fields["_id2graph"])
        self.dom, self.mp = p.dom, p.mp
        self.i = c.term(STR, "id")
        return [self.i]

    def same(self, c, st):
        p = st.place(st.place(self.a).fields["_id2graph"])
        yield "graphs-unchanged", z3.And(p.dom == self.dom, p.mp == self.mp)

    def post(self, c, st, ret):
        yield "the-graph-with-that-id", z3.And(self.dom[self.i.t], c.eng.enc(st, ret, GRAPH) == self.mp[self.i.t])
        for x in self.same(c, st):
            yield x

    def exc(self, c, st, ex):
        if ex.cls != "KeyError":
            return None
        return [("no-such-graph", z3.Not(self.dom[self.i.t]))] + list(self.same(c, st))


CONTRACTS = [Eq, Ne, Init, GetGraph]
