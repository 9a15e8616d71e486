"""Helpers for writing specifications: recursive spec functions, lemmas."""
import z3
from .engine import fun, forall, zand, zor, TH, arr_sort
from .vals import *


def zmin(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = z3.If(t < r, t, r)
    return r


def zmax(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = z3.If(t > r, t, r)
    return r


def keep(t):
    """always true; makes the term t known to the solver"""
    f = fun("keep_" + str(t.sort()), t.sort(), z3.BoolSort())
    x = z3.Const("x", t.sort())
    TH.add("keep_" + str(t.sort()), lambda: [forall([x], f(x), [f(x)])])
    return f(t)


class RecFn(object):
    """spec function given by a recursive equation.  The defining equation is
    unfolded once per occurrence in a query (limited-function encoding), so
    proofs need explicit lemmas for anything inductive."""

    def __init__(self, name, sorts, body):
        self.name = name
        self.f = fun(name, *sorts)
        self.f0 = fun(name + "_lim", *sorts)
        self.sorts = sorts[:-1]
        self.body = body
        TH_key = "rec:" + name
        self.key = TH_key

    def axioms(self):
        vs = [z3.Const("%s_a%d" % (self.name, i), s) for i, s in enumerate(self.sorts)]
        F, F0 = self.f, self.f0
        return [forall(vs, F(*vs) == F0(*vs), [F(*vs)]),
                forall(vs, F(*vs) == self.body(F0, *vs), [F(*vs)])]

    def __call__(self, *a):
        TH.add(self.key, self.axioms)
        return self.f(*a)


class Lemma(object):
    """a universally quantified fact about spec functions, proved by (strong)
    induction on an integer measure and then usable as an axiom.

    vs: the quantified variables; hyp(vs) precondition; concl(vs); measure(vs)
    (>= 0 whenever hyp holds) or None when no induction is needed;
    pats(vs) triggers; uses: lemmas assumed in the proof; hints(vs): extra
    instances of the induction hypothesis, as tuples of arguments."""

    def __init__(self, name, sorts, concl, hyp=None, measure=None, pats=None,
                 uses=(), hints=None, extra=None, lim=None):
        # lim: the conclusion with some spec functions replaced by their
        # limited versions (equal to them), used when the lemma is an axiom
        self.name = name
        self.sorts = sorts
        self.concl = concl
        self.hyp = hyp or (lambda *a: z3.BoolVal(True))
        self.measure = measure
        self.pats = pats
        self.uses = uses
        self.hints = hints
        self.extra = extra
        self.lim = lim

    def vars(self, suf=""):
        return [z3.Const("%s_v%d%s" % (self.name, i, suf), s)
                for i, s in enumerate(self.sorts)]

    def axiom(self):
        vs = self.vars()
        return forall(vs, z3.Implies(self.hyp(*vs), (self.lim or self.concl)(*vs)),
                      self.pats(*vs) if self.pats else None)

    def inst(self, *a):
        return z3.Implies(self.hyp(*a), self.concl(*a))

    def use(self):
        """make the lemma available as an axiom"""
        TH.add("lemma:" + self.name, lambda: [self.axiom()])

    def obligation(self):
        """(assumptions, goal)"""
        vs = self.vars("c")
        pc = [self.hyp(*vs)]
        for u in self.uses:
            pc.append(u.axiom())
        if self.measure is not None:
            ws = self.vars("i")
            m = self.measure(*vs)
            pc.append(m >= 0)
            ih = lambda *a: z3.Implies(z3.And(
                self.hyp(*a), self.measure(*a) >= 0, self.measure(*a) < m), self.concl(*a))
            if self.hints:
                for h in self.hints(*vs):
                    pc.append(ih(*h))
            else:
                pc.append(forall(ws, ih(*ws), self.pats(*ws) if self.pats else None))
        if self.extra:
            pc.extend(self.extra(*vs))
        return pc, self.concl(*vs)


def int_vars(L):
    """names of integer variables changed by the loop"""
    return [n for n, t in sorted(L.vars.items()) if t == INT]


def _place(L, v):
    return L.head.place(v) if isinstance(v, Ref) else None


def changed_lists(L, ety=None):
    """names of list-like variables the loop changes"""
    out = []
    for n, t in sorted(L.vars.items()):
        if t is not None and t.k == "seq" and (ety is None or t.args[0] == ety):
            out.append(n)
    for n, v in sorted(L.head.env.items()):
        if n in out or not isinstance(v, Ref):
            continue
        p = L.head.place(v)
        if p.kind == "list" and p.items is None and (ety is None or p.ety == ety):
            if L.entry.ver.get(v.pid) is not L.head.ver.get(v.pid):
                out.append(n)
    return out


def all_lists(L, ety=None):
    """names of all symbolic sequence variables in scope"""
    out = []
    for n, v in sorted(L.head.env.items()):
        if isinstance(v, SeqV) and (ety is None or v.ety == ety):
            out.append(n)
        elif isinstance(v, Ref):
            p = L.head.place(v)
            if p.kind == "list" and p.items is None and (ety is None or p.ety == ety):
                out.append(n)
    return out


def changed_dicts(L, kty=None, vty=None):
    out = []
    for n, t in sorted(L.vars.items()):
        if t is not None and t.k == "dict" and (kty is None or t.args[0] == kty) and (
                vty is None or t.args[1] == vty):
            out.append(n)
    for n, v in sorted(L.head.env.items()):
        if n in out or not isinstance(v, Ref):
            continue
        p = L.head.place(v)
        if p.kind == "dict" and p.items is None and (kty is None or p.kty == kty) and (
                vty is None or p.vty == vty):
            if L.entry.ver.get(v.pid) is not L.head.ver.get(v.pid):
                out.append(n)
    return out


def all_dicts(L, kty=None, vty=None):
    out = []
    for n, v in sorted(L.head.env.items()):
        if isinstance(v, Ref):
            p = L.head.place(v)
            if p.kind == "dict" and p.items is None and (kty is None or p.kty == kty) and (
                    vty is None or p.vty == vty):
                out.append(n)
        elif isinstance(v, DictV) and (kty is None or v.kty == kty) and (
                vty is None or v.vty == vty):
            out.append(n)
    return out


def changed_sets(L, ety=None):
    out = []
    for n, t in sorted(L.vars.items()):
        if t is not None and t.k == "set" and (ety is None or t.args[0] == ety):
            out.append(n)
    for n, v in sorted(L.head.env.items()):
        if n in out or not isinstance(v, Ref):
            continue
        p = L.head.place(v)
        if p.kind == "set" and p.items is None and (ety is None or p.ety == ety):
            if L.entry.ver.get(v.pid) is not L.head.ver.get(v.pid):
                out.append(n)
    return out


class Table(object):
    """a two-dimensional table held in variable `name`: a dictionary with
    (int, int) keys or a list of lists"""

    def __init__(self, name, vty, nested):
        self.name, self.vty, self.nested = name, vty, nested

    def has(self, V, i, j):
        if self.nested:
            a, n = V.seq(self.name, SEQ(self.vty))
            r = a[i]
            S = SEQ(self.vty)
            return z3.And(0 <= i, i < n, 0 <= j, j < S.get(1, r))
        dom, mp = V.dic(self.name, TUP(INT, INT), self.vty)
        return dom[TUP(INT, INT).mk(i, j)]

    def pat(self, V, i, j):
        """trigger"""
        return self.get(V, i, j) if self.nested else TUP(INT, INT).mk(i, j)

    def get(self, V, i, j):
        if self.nested:
            a, n = V.seq(self.name, SEQ(self.vty))
            return SEQ(self.vty).get(0, a[i])[j]
        dom, mp = V.dic(self.name, TUP(INT, INT), self.vty)
        return mp[TUP(INT, INT).mk(i, j)]


def tables(L, vty, changed=True):
    """vty: one type or alternatives"""
    out = []
    for v in (vty if isinstance(vty, (list, tuple)) else [vty]):
        for n in (changed_dicts if changed else all_dicts)(L, TUP(INT, INT), v):
            out.append(Table(n, v, False))
        for n in (changed_lists if changed else all_lists)(L, SEQ(v)):
            out.append(Table(n, v, True))
    return out


def flat_axiom_vars(prefix, sorts):
    return [z3.Const("%s%d" % (prefix, i), s) for i, s in enumerate(sorts)]
