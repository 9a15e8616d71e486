"""alignments between a pair of graphs"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, enum_fn, card_fn
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc import graphmodel as G
from pyvc.graphmodel import NODE, REL, PR, N_, R_, P_, ES, NS, MS, p1, p2

M = "daeso.pgc.graphpair."


def nodes_inv(E, N):
    """exactly the aligned nodes are present"""
    n, p = z3.Const("gn", N_), z3.Const("gp", P_)
    return z3.And(forall(n, z3.Implies(N[n], G.deg(E, n) > 0), [N[n]]),
                  forall(p, z3.Implies(E[p], z3.And(N[p1(p)], N[p2(p)])), [E[p]]))


def one_to_one(E):
    p, q = z3.Consts("gp gq", P_)
    return forall([p, q], z3.Implies(z3.And(E[p], E[q], z3.Or(p1(p) == p1(q), p2(p) == p2(q))), p == q),
                  [z3.MultiPattern(E[p], E[q])])


class Align(Contract):
    """common entry state: an arbitrary alignment"""
    cls = "GraphMapping"
    cases = ("Pair",)
    props = ("C14",)
    match = False

    def method_models(self, c):
        return G.nx_models()

    def graph(self, c, name="g"):
        eng = c.eng
        E, R, N = (z3.Const(x + name, s) for x, s in (("E", ES), ("R", MS), ("N", NS)))
        mk = lambda f: c.obj("daeso.pair.Pair", {"source": c.term(OP("Bank"), f + "s" + name),
                                                 "target": c.term(OP("Bank"), f + "t" + name)})
        ref = c.obj(M + self.cls, {})
        G.attach(ref, c.st, E, R, N)
        c.assume(nodes_inv(E, N))
        if self.match:
            c.assume(one_to_one(E))
        return ref, E, R, N

    def pair(self, c):
        self.s, self.t = z3.Const("src", N_), z3.Const("tgt", N_)
        self.p = PR.mk(self.s, self.t)
        return c.obj("daeso.pair.Pair", {"source": T(NODE, self.s), "target": T(NODE, self.t)})

    def setup(self, c):
        self.ref, self.E, self.R, self.N = self.graph(c)
        return [self.ref] + self.args(c)

    def args(self, c):
        return [self.pair(c)]

    def keeps(self, c, st):
        E, R, N = G.fields(c.eng, st, self.ref)
        p, n = z3.Const("gp", P_), z3.Const("gn", N_)
        yield "alignments-unchanged", forall(p, E[p] == self.E[p], [E[p]])
        yield "relations-unchanged", forall(p, z3.Implies(self.E[p], R[p] == self.R[p]), [R[p]])
        yield "nodes-unchanged", forall(n, N[n] == self.N[n], [N[n]])

    def invs(self, c, st):
        E, R, N = G.fields(c.eng, st, self.ref)
        n, p = z3.Const("gn", N_), z3.Const("gp", P_)
        yield "every-node-is-aligned", forall(n, z3.Implies(N[n], G.deg(E, n) > 0), [N[n]])
        yield "aligned-nodes-are-present", forall(p, z3.Implies(
            E[p], z3.And(N[p1(p)], N[p2(p)])), [E[p]])
        if self.match:
            yield "one-to-one", one_to_one(E)


class Add(Align):
    target = M + "GraphMapping.add_align"

    def args(self, c):
        p = self.pair(c)
        self.rel = z3.Const("rel", R_)
        return [p, T(REL, self.rel)]

    def after(self, p):
        return z3.Or(self.E[p], p == self.p)

    def post(self, c, st, ret):
        E, R, N = G.fields(c.eng, st, self.ref)
        p = z3.Const("gp", P_)
        yield "alignments-after", forall(p, E[p] == self.after(p), [E[p]])
        yield "aligned-with-the-relation", z3.And(E[self.p], R[self.p] == self.rel)
        yield "other-relations-unchanged", forall(p, z3.Implies(z3.And(E[p], p != self.p),
                                                                R[p] == self.R[p]), [R[p]])
        for x in self.invs(c, st):
            yield x


class MatchAdd(Add):
    target = M + "GraphMatching.add_align"
    cls = "GraphMatching"
    match = True
    props = ("C13",)

    def after(self, p):
        return z3.Or(p == self.p, z3.And(self.E[p], p1(p) != self.s, p2(p) != self.t))


class Del(Align):
    target = M + "GraphMapping.del_align"
    props = ("C13", "C14")

    def post(self, c, st, ret):
        E, R, N = G.fields(c.eng, st, self.ref)
        p = z3.Const("gp", P_)
        yield "only-an-existing-alignment", self.E[self.p]
        yield "alignments-after", forall(p, E[p] == z3.And(self.E[p], p != self.p), [E[p]])
        yield "other-relations-unchanged", forall(p, z3.Implies(E[p], R[p] == self.R[p]), [R[p]])
        for x in self.invs(c, st):
            yield x

    def exc(self, c, st, ex):
        if ex.cls != "NetworkXError":
            return None
        return [("no-such-alignment", z3.Not(self.E[self.p]))] + list(self.keeps(c, st))


class MatchDel(Del):
    cls = "GraphMatching"
    match = True
    props = ("C13",)


class Get(Align):
    target = M + "GraphMapping.get_align"
    props = ("C13", "C14")

    def post(self, c, st, ret):
        if isinstance(ret, NoneV):
            yield "unaligned", z3.Not(self.E[self.p])
        else:
            yield "its-relation", z3.And(self.E[self.p], c.eng.enc(st, ret, REL) == self.R[self.p])
        for x in self.keeps(c, st):
            yield x


class AlignedTarget(Align):
    target = M + "GraphMatching.get_aligned_target_node"
    cls = "GraphMatching"
    match = True
    props = ("C13",)
    edge = staticmethod(lambda n, m: PR.mk(n, m))

    def args(self, c):
        self.n = z3.Const("node", N_)
        return [T(NODE, self.n)]

    def post(self, c, st, ret):
        m = z3.Const("gm", N_)
        if isinstance(ret, NoneV):
            yield "unaligned", forall(m, z3.Not(self.E[self.edge(self.n, m)]), [self.E[self.edge(self.n, m)]])
        else:
            yield "the-aligned-node", self.E[self.edge(self.n, c.eng.enc(st, ret, NODE))]
        for x in self.keeps(c, st):
            yield x


class AlignedSource(AlignedTarget):
    target = M + "GraphMatching.get_aligned_source_node"
    edge = staticmethod(lambda n, m: PR.mk(m, n))


class Len(Align):
    target = M + "GraphMapping.__len__"
    props = ("C13", "C14")
    cases = ("mapping",)

    def args(self, c):
        return []

    def post(self, c, st, ret):
        yield "number-of-alignments", c.eng.enc(st, ret, INT) == card_fn(PR)(self.E)
        for x in self.keeps(c, st):
            yield x


AL = TUP(PR, REL)


def pair_attr(eng, st, v, name, e):
    if name in ("source", "target") and len(v.items) == 2:
        return [(st, v.items[0 if name == "source" else 1])]
    return None


def new_pair(eng, st, args, kw, e):
    if len(args) != 2 or kw:
        raise Unsupported("Pair arguments")
    return [(st, Tupl(args))]


class Alignments(Align):
    target = M + "GraphMapping.alignments"
    props = ("C14",)
    cases = ("all", "none-given", "some")

    def models(self, c):
        return {"new:daeso.pair.Pair": new_pair, "attr:tuple": pair_attr}

    def args(self, c):
        if c.case == "all":
            return []
        if c.case == "none-given":
            return [NONE]
        self.rels = c.set("relations", REL)
        return [self.rels]

    def post(self, c, st, ret):
        a, n = c.eng.as_arr(st, ret, AL)
        i, j, p = z3.Int("i"), z3.Int("j"), z3.Const("gp", P_)
        sel = lambda p: self.E[p]
        if c.case == "some":
            rs = c.st.place(self.rels).arr
            from pyvc.engine import exists
            r = z3.Const("gr", R_)
            sel = lambda p: z3.And(self.E[p], z3.Or(rs[self.R[p]], z3.Not(card_fn(REL)(rs) > 0)))
        w = fun("al_pos", ES, z3.IntSort())
        yield "only-alignments-with-their-relation", forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(
            sel(AL.get(0, a[i])), AL.get(1, a[i]) == self.R[AL.get(0, a[i])])), [a[i]])
        yield "each-once", forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), AL.get(0, a[i]) != AL.get(
            0, a[j])), [z3.MultiPattern(a[i], a[j])])
        from pyvc.engine import exists
        en = enum_fn(PR)(self.E)
        ix = fun("enum_idx_" + PR.key, ES, P_, z3.IntSort())(self.E, p)
        yield "all-of-them", forall(p, z3.Implies(z3.And(sel(p), keep(en[ix])), z3.Exists([i], z3.And(
            0 <= i, i < n, AL.get(0, a[i]) == p), patterns=[a[i]])), [self.E[p]])
        for x in self.keeps(c, st):
            yield x


class Equal(Align):
    target = M + "GraphMapping._alignments_equal"
    props = ("C14",)
    cases = ("mapping",)

    def models(self, c):
        return {"new:daeso.pair.Pair": new_pair, "attr:tuple": pair_attr}

    def args(self, c):
        self.oref, self.E2, self.R2, self.N2 = self.graph(c, "o")
        A, B_ = z3.Consts("fsA fsB", ES)
        p = z3.Const("gp", P_)
        return [self.oref]

    def inv(self, L):
        j = z3.Int("j")
        en = enum_fn(PR)(self.E)
        yield "checked-so-far", lambda V: forall(j, z3.Implies(z3.And(0 <= j, j < V.k), z3.And(
            self.E2[en[j]], self.R2[en[j]] == self.R[en[j]])), [en[j]])

    def post(self, c, st, ret):
        p = z3.Const("gp", P_)
        same = z3.And(forall(p, self.E[p] == self.E2[p], [self.E[p], self.E2[p]]), forall(p, z3.Implies(
            self.E[p], self.R[p] == self.R2[p]), [self.R[p], self.R2[p]]))
        # a finite set that contains another one of the same size equals it
        sub = forall(p, z3.Implies(self.E[p], self.E2[p]), [self.E[p]])
        d = z3.Const("dif", P_)
        st.assume(z3.Implies(z3.And(sub, card_fn(PR)(self.E) == card_fn(PR)(self.E2)),
                             forall(p, self.E[p] == self.E2[p], [self.E[p], self.E2[p]])))
        for s, b in c.eng.truth(st, ret):
            yield "true-iff-the-same-alignments", zimplies(s, st, b, same)


class Roots(Align):
    target = M + "GraphMapping.roots_aligned"
    props = ("C14",)
    cases = ("graphs",)

    def args(self, c):
        g = {}
        self.roots = []
        for r in ("source", "target"):
            t = z3.Const("root_" + r, OPT(NODE).sort)
            self.roots.append(t)
            g[r] = c.obj("daeso.graph.daesograph.DaesoGraph", {"root": T(OPT(NODE), t)})
        p = c.st.place(self.ref)
        p.fields["_graphs"] = c.obj("daeso.pair.Pair", g)
        return []

    def post(self, c, st, ret):
        O = OPT(NODE)
        a, b = self.roots
        some = O._dt()[1]
        s, t = z3.Consts("rs rt", N_)
        from pyvc.engine import exists
        for s2, v in c.eng.truth(st, ret):
            v = z3.BoolVal(v) if isinstance(v, bool) else v
            e = PR.mk(O.get(0, a), O.get(0, b))
            none = O._dt()[4]
            yield "aligned-iff-the-two-roots-are", z3.Implies(z3.And([z3.BoolVal(True)] + s2.pc[len(
                st.pc):]), v == z3.And(z3.Not(none(a)), z3.Not(none(b)), self.E[e]))
        for x in self.keeps(c, st):
            yield x


class GraphsEqual(Align):
    target = M + "GraphPairBase._graphs_equal"
    props = ("C14",)
    cases = ("graphs",)

    def args(self, c):
        self.ids = []
        o = c.obj(M + self.cls, {})
        for who, ref in (("a", self.ref), ("b", o)):
            g = {}
            for r in ("source", "target"):
                t = z3.Const("id_%s_%s" % (who, r), STR.sort)
                self.ids.append(t)
                g[r] = c.obj("daeso.graph.daesograph.DaesoGraph", {"id": T(STR, t)})
            c.st.place(ref).fields["_graphs"] = c.obj("daeso.pair.Pair", g)
        return [o]

    def post(self, c, st, ret):
        a, b, x, y = self.ids
        for s2, v in c.eng.truth(st, ret):
            v = z3.BoolVal(v) if isinstance(v, bool) else v
            yield "equal-iff-both-ids-are", z3.Implies(z3.And([z3.BoolVal(True)] + s2.pc[len(
                st.pc):]), v == z3.And(a == x, b == y))


def zimplies(s, st, b, same):
    b = z3.BoolVal(b) if isinstance(b, bool) else b
    return z3.Implies(z3.And(*s.pc[len(st.pc):]) if len(s.pc) > len(st.pc) else z3.BoolVal(True), b == same)


CONTRACTS = [Add, MatchAdd, Del, MatchDel, Get, AlignedTarget, AlignedSource, Len, Alignments, Equal, Roots,
             GraphsEqual]
