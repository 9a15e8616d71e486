"""set median string"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import arr_sort, fun, exists
from pyvc.spec import *
from pyvc.verify import Contract

A = arr_sort(ELEM)
Z = z3.IntSort()
Rl = z3.RealSort()
E = ELEM.sort
dist = z3.Function("dist", E, E, Rl)


def w(s, q, b):
    """distance between different positions"""
    return z3.If(b == q, z3.RealVal(0), dist(s[q], s[b]))


# distance of position q to the first m positions
SOD = RecFn("SOD", [A, Z, Z, Rl], lambda F, s, q, m: z3.If(
    m <= 0, z3.RealVal(0), F(s, q, m - 1) + w(s, q, m - 1)))


class SetMedian(Contract):
    target = "daeso.string.median.set_median_string"
    props = ("C09",)
    cases = ("list", "tuple")

    def setup(self, c):
        s = c.seq("strings", ELEM, c.case)
        self.S, self.n = c.eng.as_arr(c.st, s)
        c.assume(self.n >= 1)
        d = c.ufn("dist", [ELEM, ELEM], REAL)
        x, y = z3.Const("dx", E), z3.Const("dy", E)
        c.assume(forall([x, y], dist(x, y) == dist(y, x), [dist(x, y)]))
        return [s, d]

    def inv(self, L):
        S, n = self.S, self.n
        q = z3.Int("q")
        if True:
            for s in all_lists(L, REAL) + all_lists(L, INT):
                def at(V, s=s):
                    a, m = V.seq(s, REAL)
                    return lambda i: a[i]
                yield "one-sum-per-string[%s]" % s, lambda V, s=s: V.seq(s, REAL)[1] == n
                if s in changed_lists(L, REAL) + changed_lists(L, INT):
                    if L.outer is None:
                        yield "sums[%s]" % s, lambda V, at=at: forall(q, z3.Implies(
                            z3.And(0 <= q, q < n), at(V)(q) == z3.If(
                                q < V.k, SOD(S, q, V.k), z3.RealVal(0))), [at(V)(q), SOD(S, q, V.k)])
                    else:
                        yield "sums[%s]" % s, lambda V, at=at: forall(q, z3.Implies(
                            z3.And(0 <= q, q < n), at(V)(q) == z3.If(
                                q < L.outer.k, SOD(S, q, L.outer.k + z3.If(q < V.k, 1, 0)),
                                z3.If(q == L.outer.k, SOD(S, q, V.k), z3.RealVal(0)))), [at(V)(q)])
                for i in int_vars(L):
                    for off in (0, 1):
                        yield "range[%s,%s,%d]" % (s, i, off), lambda V, i=i, off=off: z3.And(
                            0 <= V.t(i), V.t(i) < V.k + off)
                        yield "least[%s,%s,%d]" % (s, i, off), lambda V, at=at, i=i, off=off: forall(
                            q, z3.Implies(z3.And(0 <= q, q < V.k + off),
                                          at(V)(q) >= at(V)(V.t(i))), [at(V)(q)])
                        yield "first[%s,%s,%d]" % (s, i, off), lambda V, at=at, i=i, off=off: forall(
                            q, z3.Implies(z3.And(0 <= q, q < V.t(i)),
                                          at(V)(q) > at(V)(V.t(i))), [at(V)(q)])
                    for r in sorted(L.vars):
                        if L.vars[r] in (REAL, INT):
                            yield "value[%s,%s,%s]" % (s, i, r), lambda V, at=at, i=i, r=r: V.enc(
                                r, REAL) == at(V)(V.t(i))

    def post(self, c, st, ret):
        S, n = self.S, self.n
        m, q = z3.Ints("m q")
        r = c.eng.enc(st, ret, ELEM)
        yield "first-string-with-minimal-summed-distance", exists(m, z3.And(
            0 <= m, m < n, r == S[m], forall(q, z3.Implies(z3.And(0 <= q, q < n), z3.And(
                SOD(S, m, n) <= SOD(S, q, n), z3.Implies(q < m, SOD(S, m, n) < SOD(S, q, n)))),
                [SOD(S, q, n)])))


CONTRACTS = [SetMedian]
