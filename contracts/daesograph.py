"""trees over tokens: terminals and their yield"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, enum_fn, card_fn, elems_fn
from pyvc.spec import *
from pyvc.verify import Contract
from contracts.ograph import NODE, VAL, AT, ROW, ADJ, N_
from pyvc.graphmodel import line

G = "daeso.graph.daesograph.DaesoGraph"
NS = SET(NODE).sort
TOKS = OPT(SEQ(STR))
TOK = fun("tokens_of", N_, TOKS.sort)
PUNCT = fun("is_punct", N_, z3.BoolSort())
SUB = fun("substr", STR.sort, STR.sort, z3.BoolSort())


def no_tokens(n):
    t = TOK(n)
    none = TOKS._dt()[4]
    return z3.Or(none(t), SEQ(STR).get(1, TOKS.get(0, t)) == 0)


class Attrs(object):
    """self.node: only the tokens of a node are known"""

    def getitem(self, eng, st, v, i, e):
        n = eng.enc(st, i, NODE)
        return [(s, ModelV(Attr(), node=n) if b else Exc("KeyError", i, line(e)))
                for s, b in eng.split(st, v.dom[n])]

    def contains(self, eng, st, v, x):
        return [(st, v.dom[eng.enc(st, x, NODE)])]


class Attr(object):
    def getitem(self, eng, st, v, i, e):
        if not (isinstance(i, PStr) and i.s == "tokens"):
            raise Unsupported("node attribute")
        t = TOK(v.node)
        none = TOKS._dt()[4]
        st = st.copy()
        st.assume(z3.Or(none(t), SEQ(STR).get(1, TOKS.get(0, t)) >= 0))
        return [(st, eng.dec(TOKS, t))]


def nx_getitem(eng, st, a, kw, e):
    return eng.getitem(st, st.place(a[0]).fields["adj"], a[1], e)


def nx_successors_iter(eng, st, a, kw, e):
    out = []
    for s, v in eng.getitem(st, st.place(a[0]).fields["succ"], a[1], e):
        out.append((s, Exc("NetworkXError", None, line(e)) if isinstance(v, Exc) else v))
    return out


class DG(Contract):
    props = ("C12",)
    cases = ("graph",)

    def models(self, c):
        return {}

    def method_models(self, c):
        b = "networkx.DiGraph."
        return {b + "__getitem__": nx_getitem, b + "successors_iter": nx_successors_iter,
                b + "neighbors_iter": nx_successors_iter, b + "__iter__": lambda eng, st, a, kw, e: eng.call_method(
                    st, st.place(a[0]).fields["adj"], "keys", [], {}, e)}

    def setup(self, c):
        self.succ = c.dict("succ", NODE, ROW)
        p = c.st.place(self.succ)
        self.dom, self.mp = p.dom, p.mp
        u, v = z3.Consts("gu gv", N_)
        # an edge leads to a node
        c.assume(forall([u, v], z3.Implies(self.edge(u, v), self.dom[v]), [ROW.get(0, self.mp[u])[v]]))
        self.root = z3.Const("root", N_)
        self.ref = c.obj(G, {"succ": self.succ, "adj": self.succ, "edge": self.succ, "root": T(NODE, self.root),
                             "node": ModelV(Attrs(), dom=self.dom)})
        return self.args(c)

    def edge(self, u, v):
        return z3.And(self.dom[u], ROW.get(0, self.mp[u])[v])

    def leaf(self, n):
        return card_fn(NODE)(ROW.get(0, self.mp[n])) == 0

    def flags(self, c):
        self.wp, self.we = z3.Bool("with_punct"), z3.Bool("with_empty")
        return {"with_punct": T(BOOL, self.wp), "with_empty": T(BOOL, self.we)}

    def term(self, n):
        return z3.And(self.leaf(n), z3.Or(self.wp, z3.Not(PUNCT(n))), z3.Or(self.we, z3.Not(no_tokens(n))))

    def verdict(self, c, st, ret, lab, want):
        for s, b in c.eng.truth(st, ret):
            b = z3.BoolVal(b) if isinstance(b, bool) else b
            yield lab, z3.Implies(z3.And([z3.BoolVal(True)] + s.pc[len(st.pc):]), b == want)


class IsPunct(DG):
    target = G + ".node_is_punct"

    def args(self, c):
        self.n = z3.Const("n", N_)
        c.assume(self.dom[self.n])
        return [self.ref, T(NODE, self.n)]

    def post(self, c, st, ret):
        i = z3.Int("i")
        toks = TOKS.get(0, TOK(self.n))
        a, m = SEQ(STR).get(0, toks), SEQ(STR).get(1, toks)
        w = lit("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
        for x in self.verdict(c, st, ret, "all-tokens-are-punctuation", z3.And(z3.Not(no_tokens(self.n)), forall(
                i, z3.Implies(z3.And(0 <= i, i < m), SUB(a[i], w)), [a[i]]))):
            yield x

    def apply(self, eng, st, env, e):
        return [(st, T(BOOL, PUNCT(eng.enc(st, env["n"], NODE))))]


class IsEmpty(IsPunct):
    target = G + ".node_is_empty"

    def post(self, c, st, ret):
        for x in self.verdict(c, st, ret, "no-tokens", no_tokens(self.n)):
            yield x

    def apply(self, eng, st, env, e):
        return [(st, T(BOOL, no_tokens(eng.enc(st, env["n"], NODE))))]


class IsTerminal(DG):
    target = G + ".node_is_terminal"

    def args(self, c):
        self.n = z3.Const("n", N_)
        c.assume(self.dom[self.n])
        return [[self.ref, T(NODE, self.n)], self.flags(c)]

    def post(self, c, st, ret):
        for x in self.verdict(c, st, ret, "terminal-iff-no-successors-and-admitted", self.term(self.n)):
            yield x


class Terminals(DG):
    target = G + ".terminals"

    def args(self, c):
        return [[self.ref], self.flags(c)]

    def want(self, n):
        return z3.And(self.dom[n], self.term(n))

    def inv(self, L):
        i, j, x = z3.Int("i"), z3.Int("j"), z3.Const("gx", N_)
        ix = lambda y: fun("enum_idx_" + NODE.key, NS, N_, z3.IntSort())(self.dom, y)
        el = elems_fn(NODE)
        for q in all_lists(L, NODE):
            yield "only-those[%s]" % q, lambda V, q=q: forall(i, z3.Implies(z3.And(0 <= i, i < V.seq(q, NODE)[1]), z3.And(
                self.want(V.seq(q, NODE)[0][i]), ix(V.seq(q, NODE)[0][i]) < V.k)), [V.seq(q, NODE)[0][i]])
            yield "each-once[%s]" % q, lambda V, q=q: forall([i, j], z3.Implies(z3.And(
                0 <= i, i < j, j < V.seq(q, NODE)[1]), V.seq(q, NODE)[0][i] != V.seq(q, NODE)[0][j]),
                [z3.MultiPattern(V.seq(q, NODE)[0][i], V.seq(q, NODE)[0][j])])
            yield "all-of-them[%s]" % q, lambda V, q=q: forall(x, z3.Implies(z3.And(
                self.want(x), ix(x) < V.k, keep(enum_fn(NODE)(self.dom)[ix(x)])), el(*V.seq(q, NODE))[x]), [self.dom[x]])

    def post(self, c, st, ret):
        a, n = c.eng.as_arr(st, ret, NODE)
        i, j, x = z3.Int("i"), z3.Int("j"), z3.Const("gx", N_)
        el = elems_fn(NODE)(a, n)
        yield "only-those", forall(i, z3.Implies(z3.And(0 <= i, i < n), self.want(a[i])), [a[i]])
        yield "each-once", forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), a[i] != a[j]),
                                  [z3.MultiPattern(a[i], a[j])])
        ix = fun("enum_idx_" + NODE.key, NS, N_, z3.IntSort())(self.dom, x)
        yield "all-of-them", forall(x, z3.Implies(z3.And(self.want(x), keep(enum_fn(NODE)(self.dom)[ix])), el[x]),
                                    [self.dom[x]])


class NonTerminals(Terminals):
    target = G + ".non_terminals"

    def args(self, c):
        return [self.ref]

    def want(self, n):
        return z3.And(self.dom[n], z3.Not(self.leaf(n)))


class Yield(DG):
    target = G + ".terminal_yield"
    cases = ("node", "root")
    need_termination = False

    def args(self, c):
        kw = self.flags(c)
        self.n = z3.Const("n", N_) if c.case == "node" else self.root
        c.assume(self.dom[self.n])
        # an arbitrary set that contains the node and is closed under successors
        self.C = z3.Const("closed", NS)
        u, v = z3.Consts("gu gv", N_)
        c.assume(self.C[self.n])
        c.assume(forall([u, v], z3.Implies(z3.And(self.C[u], ROW.get(0, self.mp[u])[v]), self.C[v]),
                        [z3.MultiPattern(self.C[u], ROW.get(0, self.mp[u])[v])]))
        return [[self.ref] + ([T(NODE, self.n)] if c.case == "node" else []), kw]

    def closed(self, S, v):
        w = z3.Const("gw", N_)
        return forall(w, z3.Implies(ROW.get(0, self.mp[v])[w], S[w]), [ROW.get(0, self.mp[v])[w]])

    def inv(self, L):
        v, i, j = z3.Const("gv", N_), z3.Int("i"), z3.Int("j")
        seens = [(d, lambda V, d=d: V.dic(d, NODE, BOOL)[0]) for d in all_dicts(L, NODE)] + [
            (d, lambda V, d=d: V.set(d, NODE)) for d in changed_sets(L, NODE)]
        el = elems_fn(NODE)
        ls = all_lists(L, NODE)
        # the list that starts out with the node is the one of pending nodes
        if L.it is None:
            self.pending = [q for q in ls if L.entry.place(L.entry.env[q]).items] or ls
            self.result = [q for q in ls if L.entry.place(L.entry.env[q]).items == []] or ls
        pend = [q for q in ls if q in getattr(self, "pending", ls)]
        res = [q for q in ls if q in getattr(self, "result", ls)]
        for q in pend:
            yield "reachable[%s]" % q, lambda V, q=q: forall(i, z3.Implies(z3.And(0 <= i, i < V.seq(q, NODE)[1]), z3.And(
                self.C[V.seq(q, NODE)[0][i]], self.dom[V.seq(q, NODE)[0][i]])), [V.seq(q, NODE)[0][i]])
        for d, S in seens:
            yield "reachable[%s]" % d, lambda V, S=S: forall(v, z3.Implies(
                S(V)[v], z3.And(self.C[v], self.dom[v])), [S(V)[v]])
            for q in pend:
                yield "closed-or-pending[%s,%s]" % (d, q), lambda V, S=S, q=q: forall(v, z3.Implies(
                    z3.And(S(V)[v], z3.Not(el(*V.seq(q, NODE))[v])), self.closed(S(V), v)), [S(V)[v]])
                yield "start[%s,%s]" % (d, q), lambda V, S=S, q=q: z3.Or(S(V)[self.n], z3.And(
                    V.seq(q, NODE)[1] >= 1, el(*V.seq(q, NODE))[self.n]))
            for q in res:
                yield "terminals-seen[%s,%s]" % (d, q), lambda V, S=S, q=q: forall(v, el(*V.seq(q, NODE))[v] == z3.And(
                    S(V)[v], self.term(v)), [el(*V.seq(q, NODE))[v], S(V)[v]])
            if L.it is not None:
                flags = [b for b, t in sorted(L.vars.items()) if t == BOOL]
                for b in flags:
                    yield "all-seen-if[%s,%s]" % (d, b), lambda V, S=S, b=b: z3.Implies(V.t(b), forall(
                        j, z3.Implies(z3.And(0 <= j, j < V.k), S(V)[L.it.key(j)]), [L.it.key(j)]))
                yield "all-seen[%s]" % d, lambda V, S=S: forall(
                    j, z3.Implies(z3.And(0 <= j, j < V.k), S(V)[L.it.key(j)]), [L.it.key(j)])
        for q in res:
            yield "each-once[%s]" % q, lambda V, q=q: forall([i, j], z3.Implies(z3.And(
                0 <= i, i < j, j < V.seq(q, NODE)[1]), V.seq(q, NODE)[0][i] != V.seq(q, NODE)[0][j]),
                [z3.MultiPattern(V.seq(q, NODE)[0][i], V.seq(q, NODE)[0][j])])

    def post(self, c, st, ret):
        a, n = c.eng.as_arr(st, ret, NODE)
        el = elems_fn(NODE)(a, n)
        # witness: the nodes visited
        S = None
        for nm, x in sorted(st.exit_env.items()):
            if isinstance(x, Ref):
                p = st.place(x)
                if p.kind == "dict" and p.items is None and p.kty == NODE and x.pid != self.succ.pid:
                    S = p.dom
                elif p.kind == "set" and p.items is None and p.ety == NODE:
                    S = p.arr
        if S is None:
            raise Unsupported("no set of visited nodes")
        v, w, i, j = z3.Const("gv", N_), z3.Const("gw", N_), z3.Int("i"), z3.Int("j")
        yield "visited-nodes-include-the-start", S[self.n]
        yield "visited-nodes-are-closed", forall([v, w], z3.Implies(z3.And(S[v], ROW.get(0, self.mp[v])[w]), S[w]),
                                                 [z3.MultiPattern(S[v], ROW.get(0, self.mp[v])[w])])
        yield "visited-nodes-are-reachable", forall(v, z3.Implies(S[v], self.C[v]), [S[v]])
        yield "yields-exactly-the-visited-terminals", forall(v, el[v] == z3.And(S[v], self.term(v)), [el[v], S[v]])
        yield "each-once", forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), a[i] != a[j]),
                                  [z3.MultiPattern(a[i], a[j])])


CONTRACTS = [IsPunct, IsEmpty, IsTerminal, Terminals, NonTerminals, Yield]
