"""pair of source and target"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.spec import *
from pyvc.verify import Contract

E = ELEM.sort
Q = "daeso.pair.Pair"


class P(Contract):
    props = ("C10",)
    cases = ("pair",)

    def pair(self, c, nm):
        x, y = z3.Const(nm + "s", E), z3.Const(nm + "t", E)
        return c.obj(Q, {"source": T(ELEM, x), "target": T(ELEM, y)}), x, y

    def fields(self, c, st, ref):
        f = st.place(ref).fields
        return [None if isinstance(f.get(k), NoneV) else c.eng.enc(st, f[k], ELEM) for k in ("source", "target")]


class Init(P):
    target = Q + ".__init__"
    cases = ("both", "source", "target", "none", "keywords")

    def args(self, c):
        self.x, self.y = z3.Const("x", E), z3.Const("y", E)
        a, k = [], {}
        if c.case == "both":
            a = [T(ELEM, self.x), T(ELEM, self.y)]
        elif c.case == "keywords":
            k = {"target": T(ELEM, self.y), "source": T(ELEM, self.x)}
        elif c.case in ("source", "target"):
            k = {c.case: T(ELEM, self.x if c.case == "source" else self.y)}
        return a, k

    def setup(self, c):
        self.ref = c.obj(Q, {})
        a, k = self.args(c)
        return [[self.ref] + a, k]

    def post(self, c, st, ret):
        s, t = self.fields(c, st, self.ref)
        hs, ht = c.case in ("both", "source", "keywords"), c.case in ("both", "target", "keywords")
        yield "source-as-given", zis(s, self.x if hs else None)
        yield "target-as-given", zis(t, self.y if ht else None)
        yield "returns-nothing", z3.BoolVal(isinstance(ret, NoneV))


def zis(a, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return a == b


class Set(Init):
    target = Q + ".set"

    def setup(self, c):
        self.ref, _, _ = self.pair(c, "old")
        a, k = self.args(c)
        return [[self.ref] + a, k]


class Eq(P):
    target = Q + ".__eq__"
    cases = ("pair", "same-object", "none", "int", "tuple")
    neg = False

    def setup(self, c):
        self.ref, self.a, self.b = self.pair(c, "p")
        if c.case == "pair":
            o, self.c, self.d = self.pair(c, "q")
        elif c.case == "same-object":
            o, self.c, self.d = self.ref, self.a, self.b
        else:
            o = {"none": NONE, "int": T(INT, z3.Int("other")),
                 "tuple": Tupl([T(ELEM, self.a), T(ELEM, self.b)])}[c.case]
            self.c = None
        return [self.ref, o]

    def post(self, c, st, ret):
        want = z3.BoolVal(False) if self.c is None else z3.And(self.a == self.c, self.b == self.d)
        if self.neg:
            want = z3.Not(want)
        for s, b in c.eng.truth(st, ret):
            b = z3.BoolVal(b) if isinstance(b, bool) else b
            yield "equal-iff-both-fields-are", z3.Implies(z3.And([z3.BoolVal(True)] + s.pc[len(st.pc):]), b == want)
        x, y = self.fields(c, st, self.ref)
        yield "fields-unchanged", z3.And(x == self.a, y == self.b)


class Ne(Eq):
    target = Q + ".__ne__"
    neg = True


class Iter(P):
    target = Q + ".__iter__"

    def setup(self, c):
        self.ref, self.a, self.b = self.pair(c, "p")
        return [self.ref]

    def post(self, c, st, ret):
        (s, it), = c.eng.iterate(st, ret)
        if it.items is None:
            arr, n = c.eng.as_arr(s, ret, ELEM)
            yield "source-then-target", z3.And(n == 2, arr[0] == self.a, arr[1] == self.b)
        else:
            x = [c.eng.enc(s, i, ELEM) for i in it.items]
            yield "source-then-target", z3.And(len(x) == 2, x[0] == self.a, x[1] == self.b) if len(
                x) == 2 else z3.BoolVal(False)


CONTRACTS = [Init, Set, Eq, Ne, Iter]
