"""Verification condition generator for (a subset of) Python 2.

Forward symbolic execution of the real ASTs, one function at a time.  Loops
over symbolic data are cut by inductive invariants (candidates come from the
sidecar contracts and are pruned Houdini-style until inductive).  Calls are
replaced by the callee's contract if it has one, else the callee is executed
in place.  Everything provable is recorded as an obligation and discharged by
an SMT solver.
"""
import itertools
import sys
import time
import z3

from .vals import *
from . import vals
from .src import Node, FuncInfo, ClassInfo, Module, walk, Program

sys.setrecursionlimit(20000)
z3.set_param("auto_config", False)
z3.set_param("smt.mbqi", False)
z3.set_param("smt.random_seed", 1)

UNK = Ty("unk")
NONETY = Ty("none")

_qf_cache = {}


def has_quant(f):
    key = f.get_id()
    hit = _qf_cache.get(key)
    if hit is not None and hit[1].eq(f):
        return hit[0]
    seen = set()
    todo = [f]
    r = False
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            r = True
            break
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
    _qf_cache[key] = (r, f)
    return r


def zand(*fs):
    fs = [f for f in fs if f is not True and not (
        isinstance(f, z3.BoolRef) and z3.is_true(f))]
    if any(f is False for f in fs):
        return z3.BoolVal(False)
    if not fs:
        return z3.BoolVal(True)
    return fs[0] if len(fs) == 1 else z3.And(*fs)


def zor(*fs):
    if any(f is True for f in fs):
        return z3.BoolVal(True)
    fs = [f for f in fs if f is not False and not (
        isinstance(f, z3.BoolRef) and z3.is_false(f))]
    if not fs:
        return z3.BoolVal(False)
    return fs[0] if len(fs) == 1 else z3.Or(*fs)


def znot(f):
    if f is True or f is False:
        return z3.BoolVal(not f)
    return z3.Not(f)


def zbool(f):
    if f is True or f is False:
        return z3.BoolVal(f)
    return f


def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats and not any(has_ite(p) for p in pats):
        return z3.ForAll(list(vs), body, patterns=pats)
    return z3.ForAll(list(vs), body)


def has_ite(p):
    if isinstance(p, z3.PatternRef):
        return False
    todo, seen = [p], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_and(x) or z3.is_or(x):
            return True
        todo.extend(x.children())
    return False


def exists(vs, body):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    return z3.Exists(list(vs), body)


def I(n):
    return T(INT, z3.IntVal(n))


def B(b):
    return T(BOOL, zbool(b))


def const_int(v):
    """python int of a concrete int value, else None"""
    if isinstance(v, T) and v.ty == INT:
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return t.as_long()
    if isinstance(v, T) and v.ty == BOOL:
        t = z3.simplify(v.t)
        if z3.is_true(t):
            return 1
        if z3.is_false(t):
            return 0
    return None


def const_key(v):
    """hashable python constant for a concrete value, else None"""
    if isinstance(v, PStr):
        return ("s", v.s)
    if isinstance(v, NoneV):
        return ("n",)
    i = const_int(v)
    if i is not None:
        return ("i", i)
    if isinstance(v, Tupl):
        ks = [const_key(x) for x in v.items]
        if all(k is not None for k in ks):
            return ("t",) + tuple(ks)
    if isinstance(v, T) and v.ty == STR:
        s = vals.lit_of(v.t)
        if s is not None:
            return ("s", s)
    return None


def key_val(k):
    if k[0] == "s":
        return PStr(k[1])
    if k[0] == "n":
        return NONE
    if k[0] == "i":
        return I(k[1])
    return Tupl([key_val(x) for x in k[1:]])


def empty_arr(ety):
    return z3.Const("emptyarr_" + ety.key,
                    z3.ArraySort(z3.IntSort(), ety.sort))


_fun = {}


def fun(name, *sorts):
    """uninterpreted function; sorts given as sorts, last one is the range"""
    key = (name,) + tuple(str(s) for s in sorts)
    f = _fun.get(key)
    if f is None:
        f = _fun[key] = z3.Function(name, *sorts)
    return f


# ------------------------------------------------------ built-in theory
class Theory(object):
    """axioms of the spec functions used by the built-in operations; only
    those whose symbols were used are added to a query"""

    def __init__(self):
        self.ax = {}

    def add(self, key, mk):
        if key not in self.ax:
            self.ax[key] = None
            self.ax[key] = mk()

    def all(self):
        out = []
        for v in self.ax.values():
            if v:
                out.extend(v)
        return out


TH = Theory()


def arr_sort(ety):
    return z3.ArraySort(z3.IntSort(), ety.sort)


def slice_fn(ety):
    A = arr_sort(ety)
    f = fun("slice_" + ety.key, A, z3.IntSort(), A)

    def mk():
        a = z3.Const("a", A)
        o, i = z3.Ints("o i")
        return [forall([a, o, i], f(a, o)[i] == a[o + i], [f(a, o)[i]]),
                forall([a], f(a, 0) == a, [f(a, 0)])]
    TH.add("slice_" + ety.key, mk)
    return f


def concat_fn(ety):
    """concat(a, la, b): a[0..la) then b"""
    A = arr_sort(ety)
    f = fun("concat_" + ety.key, A, z3.IntSort(), A, A)

    def mk():
        a, b = z3.Consts("a b", A)
        n, i = z3.Ints("n i")
        return [forall([a, n, b, i], f(a, n, b)[i] ==
                       z3.If(i < n, a[i], b[i - n]), [f(a, n, b)[i]])]
    TH.add("concat_" + ety.key, mk)
    return f


def rev_fn(ety):
    A = arr_sort(ety)
    f = fun("rev_" + ety.key, A, z3.IntSort(), A)

    def mk():
        a = z3.Const("a", A)
        n, i = z3.Ints("n i")
        return [forall([a, n, i], f(a, n)[i] == a[n - 1 - i], [f(a, n)[i]])]
    TH.add("rev_" + ety.key, mk)
    return f


def insert_fn(ety):
    A = arr_sort(ety)
    f = fun("insert_" + ety.key, A, z3.IntSort(), ety.sort, A)

    def mk():
        a = z3.Const("a", A)
        x = z3.Const("x", ety.sort)
        n, i = z3.Ints("n i")
        return [forall([a, n, x, i], f(a, n, x)[i] ==
                       z3.If(i < n, a[i], z3.If(i == n, x, a[i - 1])),
                       [f(a, n, x)[i]])]
    TH.add("insert_" + ety.key, mk)
    return f


def delete_fn(ety):
    A = arr_sort(ety)
    f = fun("delete_" + ety.key, A, z3.IntSort(), A)

    def mk():
        a = z3.Const("a", A)
        n, i = z3.Ints("n i")
        return [forall([a, n, i], f(a, n)[i] ==
                       z3.If(i < n, a[i], a[i + 1]), [f(a, n)[i]])]
    TH.add("delete_" + ety.key, mk)
    return f


def const_arr(ety, t):
    A = arr_sort(ety)
    f = fun("constarr_" + ety.key, ety.sort, A)

    def mk():
        x = z3.Const("x", ety.sort)
        i = z3.Int("i")
        return [forall([x, i], f(x)[i] == x, [f(x)[i]])]
    TH.add("constarr_" + ety.key, mk)
    return f(t)


def range_arr():
    """range_arr(a)[i] == a + i"""
    A = arr_sort(INT)
    f = fun("rangearr", z3.IntSort(), A)

    def mk():
        a, i = z3.Ints("a i")
        return [forall([a, i], f(a)[i] == a + i, [f(a)[i]])]
    TH.add("rangearr", mk)
    return f


def sum_fn(ety):
    """sum of the first n entries"""
    A = arr_sort(ety)
    f = fun("sum_" + ety.key, A, z3.IntSort(), ety.sort)

    def mk():
        a = z3.Const("a", A)
        n, i = z3.Ints("n i")
        x = z3.Const("x", ety.sort)
        return [forall([a], f(a, 0) == 0, [f(a, 0)]),
                forall([a, n], z3.Implies(n > 0, f(a, n) == f(a, n - 1) + a[n - 1]),
                       [f(a, n)]),
                forall([a, n, i, x], z3.Implies(
                    i >= n, f(z3.Store(a, i, x), n) == f(a, n)),
                    [f(z3.Store(a, i, x), n)])]
    TH.add("sum_" + ety.key, mk)
    return f


def elems_fn(ety):
    """the set of the first n entries of an array"""
    A = arr_sort(ety)
    S = SET(ety).sort
    f = fun("elems_" + ety.key, A, z3.IntSort(), S)
    w = fun("elems_idx_" + ety.key, A, z3.IntSort(), ety.sort, z3.IntSort())

    def mk():
        a = z3.Const("a", A)
        n, i = z3.Ints("n i")
        x, y = z3.Consts("x y", ety.sort)
        cd = card_fn(ety)
        return [
            # membership has a witness index ...
            forall([a, n, x], z3.Implies(f(a, n)[x], z3.And(
                0 <= w(a, n, x), w(a, n, x) < n, a[w(a, n, x)] == x)),
                [f(a, n)[x]]),
            # ... and every entry is a member
            forall([a, n, i], z3.Implies(z3.And(0 <= i, i < n), f(a, n)[a[i]]),
                   [z3.MultiPattern(f(a, n), a[i])]),
            forall([a, n], z3.Implies(n >= 0, z3.And(
                cd(f(a, n)) <= n,
                (cd(f(a, n)) == 0) == (n == 0))), [cd(f(a, n))]),
            # one more entry
            forall([a, n, i, x, y], z3.Implies(z3.And(0 <= i, n == i + 1), f(z3.Store(a, i, x), n)[y] == z3.Or(
                y == x, f(a, i)[y])), [f(z3.Store(a, i, x), n)[y]]),
        ]
    TH.add("elems_" + ety.key, mk)
    return f


def card_fn(ety):
    """cardinality of a (finite) set given by its characteristic array"""
    S = SET(ety).sort
    f = fun("card_" + ety.key, S, z3.IntSort())

    def mk():
        s = z3.Const("s", S)
        x = z3.Const("x", ety.sort)
        emp = z3.K(ety.sort, z3.BoolVal(False))
        return [
            f(emp) == 0,
            forall([s], f(s) >= 0, [f(s)]),
            forall([s, x], z3.Implies(s[x], f(s) > 0),
                   [z3.MultiPattern(f(s), s[x])]),
            forall([s, x], f(z3.Store(s, x, z3.BoolVal(True))) ==
                   f(s) + z3.If(s[x], 0, 1),
                   [f(z3.Store(s, x, z3.BoolVal(True)))]),
            forall([s, x], f(z3.Store(s, x, z3.BoolVal(False))) ==
                   f(s) - z3.If(s[x], 1, 0),
                   [f(z3.Store(s, x, z3.BoolVal(False)))]),
        ]
    TH.add("card_" + ety.key, mk)
    return f


def _setop(name, ety, opf):
    S = SET(ety).sort
    f = fun(name + "_" + ety.key, S, S, S)

    def mk():
        s, t = z3.Consts("s t", S)
        x = z3.Const("x", ety.sort)
        cd = card_fn(ety)
        ax = [forall([s, t, x], f(s, t)[x] == opf(s[x], t[x]),
                     [f(s, t)[x]])]
        ax.append(forall([s, t], cd(f(s, t)) >= 0, [f(s, t)]))
        return ax
    TH.add(name + "_" + ety.key, mk)
    return f


def inter_fn(ety):
    f = _setop("inter", ety, z3.And)

    def mk():
        s, t = z3.Consts("s t", SET(ety).sort)
        x = z3.Const("x", ety.sort)
        cd = card_fn(ety)
        u = union_fn(ety)
        return [forall([s, t, x], z3.Implies(z3.And(s[x], t[x]), f(s, t)[x]),
                       [z3.MultiPattern(f(s, t), s[x]),
                        z3.MultiPattern(f(s, t), t[x])]),
                forall([s, t], f(s, t) == f(t, s), [f(s, t)]),
                forall([s, t], z3.And(cd(f(s, t)) <= cd(s), cd(f(s, t)) <= cd(t)),
                       [f(s, t)]),
                forall([s], f(s, s) == s, [f(s, s)]),
                forall([s, t], cd(f(s, t)) + cd(u(s, t)) == cd(s) + cd(t),
                       [f(s, t)])]
    TH.add("inter2_" + ety.key, mk)
    return f


def union_fn(ety):
    f = _setop("union", ety, z3.Or)

    def mk():
        s, t = z3.Consts("s t", SET(ety).sort)
        x = z3.Const("x", ety.sort)
        cd = card_fn(ety)
        return [forall([s, t, x], z3.Implies(z3.Or(s[x], t[x]), f(s, t)[x]),
                       [z3.MultiPattern(f(s, t), s[x]),
                        z3.MultiPattern(f(s, t), t[x])]),
                forall([s, t], f(s, t) == f(t, s), [f(s, t)]),
                forall([s], f(s, s) == s, [f(s, s)]),
                forall([s, t], z3.And(cd(f(s, t)) >= cd(s), cd(f(s, t)) >= cd(t)),
                       [f(s, t)])]
    TH.add("union2_" + ety.key, mk)
    return f


def diff_fn(ety):
    return _setop("diff", ety, lambda a, b: z3.And(a, z3.Not(b)))


def enum_fn(kty):
    """an enumeration (array) of a finite set: arbitrary but fixed order"""
    S = SET(kty).sort
    A = arr_sort(kty)
    f = fun("enum_" + kty.key, S, A)
    w = fun("enum_idx_" + kty.key, S, kty.sort, z3.IntSort())

    def mk():
        s = z3.Const("s", S)
        x = z3.Const("x", kty.sort)
        i = z3.Int("i")
        cd = card_fn(kty)
        return [
            forall([s, i], z3.Implies(z3.And(0 <= i, i < cd(s)), z3.And(
                s[f(s)[i]], w(s, f(s)[i]) == i)), [f(s)[i]]),
            forall([s, x], z3.Implies(s[x], z3.And(
                0 <= w(s, x), w(s, x) < cd(s), f(s)[w(s, x)] == x)),
                [z3.MultiPattern(f(s), s[x])]),
        ]
    TH.add("enum_" + kty.key, mk)
    return f


SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
LOG = z3.Function("ln", z3.RealSort(), z3.RealSort())


def sqrt_ax():
    x, y = z3.Reals("x y")
    return [forall([x], z3.Implies(x >= 0, z3.And(
        SQRT(x) >= 0, SQRT(x) * SQRT(x) == x)), [SQRT(x)]),
        SQRT(0) == 0, SQRT(1) == 1,
        forall([x], z3.Implies(x > 0, SQRT(x) > 0), [SQRT(x)]),
        forall([x, y], z3.Implies(z3.And(0 <= x, x <= y), SQRT(x) <= SQRT(y)),
               [z3.MultiPattern(SQRT(x), SQRT(y))])]


def log_ax():
    x, y = z3.Reals("x y")
    return [LOG(1) == 0,
            forall([x], z3.Implies(x > 1, LOG(x) > 0), [LOG(x)]),
            forall([x, y], z3.Implies(z3.And(0 < x, x < y), LOG(x) < LOG(y)),
                   [z3.MultiPattern(LOG(x), LOG(y))])]


# --------------------------------------------------------- exception classes
EXC_BASES = {
    "BaseException": None, "Exception": "BaseException", "SystemExit": "BaseException",
    "StandardError": "Exception", "StopIteration": "Exception",
    "ArithmeticError": "StandardError", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError",
    "LookupError": "StandardError", "IndexError": "LookupError",
    "KeyError": "LookupError", "AttributeError": "StandardError",
    "TypeError": "StandardError", "ValueError": "StandardError",
    "AssertionError": "StandardError", "NameError": "StandardError",
    "NotImplementedError": "RuntimeError", "RuntimeError": "StandardError",
    "EnvironmentError": "StandardError", "IOError": "EnvironmentError",
    "OSError": "EnvironmentError", "ImportError": "StandardError",
    "EOFError": "StandardError", "UnicodeEncodeError": "ValueError",
    "NetworkXException": "Exception", "NetworkXError": "NetworkXException",
    "DaesoException": "Exception", "DaesoError": "DaesoException",
}


def exc_isa(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name)
    return False


class It(object):
    """what a for loop iterates over: n items, elem(k) -> Val"""
    def __init__(self, n, elem, items=None, src=None, kind=None, pids=(),
                 key=None):
        self.key = key     # trigger term for the element at a position
        self.n = n
        self.elem = elem
        self.items = items
        self.src = src
        self.kind = kind
        self.pids = pids    # places that must not change while iterating


class Oblig(object):
    def __init__(self, name, pc, goal, line=None, kind="post"):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.line = line
        self.kind = kind
        self.status = None
        self.t = 0.0
        self.model = None
        self.backend = None


def limit(s, secs):
    """bound a query by z3's own resource count, so that the outcome does not
    depend on how busy the machine is; the clock is only a backstop"""
    s.set("rlimit", int(secs * 1400000))
    s.set("timeout", int(secs * 8000) + 2000)


class SView(object):
    """what candidate invariants see of a state"""

    def __init__(self, L, st, k, eng):
        self.L, self.st, self.k, self.eng = L, st, k, eng

    def val(self, name):
        return self.st.env.get(name)

    def t(self, name):
        v = self.st.env.get(name)
        if isinstance(v, T):
            return v.t
        if isinstance(v, PStr):
            return vals.lit(v.s)
        raise KeyError(name)

    def seq(self, name, ety=None):
        """(arr, len) of a list/tuple variable"""
        return self.eng.as_arr(self.st, self.st.env[name], ety)

    def enc(self, name, ty):
        """term of a variable's value as a value of type ty"""
        return self.eng.enc(self.st, self.st.env[name], ty)

    def dic(self, name, kty=None, vty=None):
        return self.eng.as_dict(self.st, self.st.env[name], kty, vty)

    def set(self, name, ety=None):
        return self.eng.as_set(self.st, self.st.env[name], ety)


class Loop(object):
    pass


class Engine(object):
    MAXPATHS = 3000

    def __init__(self, prog, contracts=None, models=None, log=None,
                 timeout=10.0, houdini_timeout=2.0):
        self.prog = prog
        self.contracts = contracts or {}
        self.models = models or {}
        self.method_models = {}
        self.theory = []
        self.obligs = []
        self.timeout = timeout
        self.hto = houdini_timeout
        self.retry = False     # ask twice for each candidate invariant
        self.depth = 0
        self.loop_stack = []
        self.call_stack = []
        self.frames = []
        self.loop_memo = {}
        self.notes = set()
        self.cur = None            # contract being verified
        self.recording = True
        self.solver_time = 0.0
        self.queries = 0
        self.dropped = []
        self.kept = []
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.deadline = None
        self._feas_cache = {}
        self.log = log or (lambda s: None)

    # ------------------------------------------------------------ solving
    def axioms(self):
        return vals.lit_axioms() + TH.all() + list(self.theory)

    def check(self, pc, goal, timeout, seed=None, auto=False, tactic=False):
        """'unsat' (goal holds), 'sat' or 'unknown'"""
        if self.deadline and time.process_time() > self.deadline:
            raise Unsupported("verification time budget exhausted")
        g = z3.simplify(zbool(goal)) if not has_quant(zbool(goal)) else zbool(goal)
        if z3.is_true(g):
            return "unsat", None
        s = z3.Solver() if tactic else z3.SimpleSolver()
        limit(s, timeout)
        if seed is not None:
            s.set("random_seed", seed)
        if auto:
            s.set("auto_config", True)
        for f in self.axioms():
            s.add(f)
        for f in pc:
            s.add(f)
        s.add(z3.Not(zbool(goal)))
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        m = None
        if r == z3.sat:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return str(r), m

    def truth_term(self, st, v):
        """truth of a simple value"""
        (_, t), = self.truth(st, v)
        return t if z3.is_expr(t) else z3.BoolVal(bool(t))

    def feasible(self, st):
        qf = [f for f in st.pc if not has_quant(f)]
        key = tuple(f.get_id() for f in qf)
        hit = self._feas_cache.get(key)
        if hit is not None:
            return hit[0]
        s = z3.SimpleSolver()
        limit(s, 0.3)
        for f in vals.lit_axioms():
            s.add(f)
        for f in qf:
            s.add(f)
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        ok = r != z3.unsat
        self._feas_cache[key] = (ok, qf)
        return ok

    def entails(self, st, f):
        """quick, quantifier-free entailment"""
        f = zbool(f)
        sf = z3.simplify(f)
        if z3.is_true(sf):
            return True
        if z3.is_false(sf):
            return False
        s = z3.SimpleSolver()
        limit(s, 0.3)
        for g in vals.lit_axioms():
            s.add(g)
        for g in st.pc:
            if not has_quant(g):
                s.add(g)
        s.add(z3.Not(f))
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return r == z3.unsat

    def branch(self, st, cond):
        """(state where cond, state where not cond), None if infeasible"""
        if cond is True or cond is False:
            return (st, None) if cond else (None, st)
        c = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy(), st.copy()
        a.assume(cond)
        b.assume(z3.Not(cond))
        fa = self.feasible(a)
        fb = self.feasible(b)
        if not fa and not fb:
            return None, None
        return (a if fa else None), (b if fb else None)

    def split(self, st, cond):
        """[(state, truth value)] of the feasible outcomes"""
        return [(s, b) for s, b in zip(self.branch(st, cond), (True, False)) if s is not None]

    def oblige(self, name, st, goal, line=None, kind="post"):
        if not self.recording:
            return
        self.obligs.append(Oblig(name, list(st.pc), zbool(goal), line, kind))

    # -------------------------------------------------------------- types
    def type_of(self, st, v):
        if isinstance(v, T):
            return v.ty
        if isinstance(v, PStr):
            return STR
        if isinstance(v, NoneV):
            return NONETY
        if isinstance(v, Tupl):
            return TUP(*[self.type_of(st, x) for x in v.items])
        if isinstance(v, SeqV):
            return SEQ(v.ety, v.kind)
        if isinstance(v, DictV):
            return DICT(v.kty, v.vty, v.kind)
        if isinstance(v, SetV):
            return SET(v.ety)
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "list":
                if p.items is not None:
                    t = UNK
                    for x in p.items:
                        t = self.join(t, self.type_of(st, x))
                    return SEQ(t, "list")
                return SEQ(p.ety, "list")
            if p.kind == "dict":
                if p.items is not None:
                    kt = vt = UNK
                    for k, x in p.items.items():
                        kt = self.join(kt, self.type_of(st, key_val(k)))
                        vt = self.join(vt, self.type_of(st, x))
                    return DICT(kt, vt, p.dkind)
                return DICT(p.kty, p.vty, p.dkind)
            if p.kind == "set":
                if p.items is not None:
                    t = UNK
                    for x in p.items:
                        t = self.join(t, self.type_of(st, x))
                    return SET(t)
                return SET(p.ety)
            raise Unsupported("object stored in a symbolic container")
        if isinstance(v, ModelV) and hasattr(v.model, "type_of"):
            return v.model.type_of(v)
        raise Unsupported("value without a type: %r" % (v,))

    def join(self, a, b):
        if a == b or b == UNK:
            return a
        if a == UNK:
            return b
        ks = {a.k, b.k}
        if ks == {"int", "real"}:
            return REAL
        if ks == {"bool", "int"}:
            return INT
        if a.k == "none":
            return OPT(b)
        if b.k == "none":
            return OPT(a)
        if "opt" in ks:
            x = a.args[0] if a.k == "opt" else a
            y = b.args[0] if b.k == "opt" else b
            return OPT(self.join(x, y))
        if a.k == b.k == "tup" and len(a.args) == len(b.args):
            return TUP(*[self.join(x, y) for x, y in zip(a.args, b.args)])
        if a.k == b.k == "seq":
            return SEQ(self.join(a.args[0], b.args[0]), a.args[1])
        if a.k == b.k == "dict":
            return DICT(self.join(a.args[0], b.args[0]),
                        self.join(a.args[1], b.args[1]), a.args[2])
        if a.k == b.k == "set":
            return SET(self.join(a.args[0], b.args[0]))
        if ks == {"seq", "tup"}:
            s, t = (a, b) if a.k == "seq" else (b, a)
            e = s.args[0]
            for x in t.args:
                e = self.join(e, x)
            return SEQ(e, s.args[1])
        raise Unsupported("no common type of %s and %s" % (a, b))

    def known(self, ty):
        if ty.k == "unk":
            return False
        return all(self.known(a) for a in ty.args if isinstance(a, Ty))

    # ---------------------------------------------------- encode / decode
    def enc(self, st, v, ty):
        """z3 term of type ty for value v"""
        if ty.k == "opt":
            if isinstance(v, NoneV):
                return ty._dt()[3]()
            if isinstance(v, T) and v.ty == ty:
                return v.t
            return ty.mk(self.enc(st, v, ty.args[0]))
        if isinstance(v, T):
            if v.ty == ty:
                return v.t
            if v.ty == INT and ty == REAL:
                return z3.ToReal(v.t)
            if v.ty == BOOL and ty == INT:
                return z3.If(v.t, 1, 0)
            if v.ty == BOOL and ty == REAL:
                return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
            if v.ty.k == "opt" and v.ty.args[0] == ty:
                raise Unsupported("possibly None value used as %s" % ty)
            if v.ty.k == "op" and ty.k == "op" and ty.args[0] == "Any":
                f = fun("any_of_" + v.ty.key, v.ty.sort, ty.sort)
                return f(v.t)
            raise Unsupported("cannot use %s as %s" % (v.ty, ty))
        if isinstance(v, PStr):
            if ty == STR:
                return vals.lit(v.s)
            if ty.k == "op" and ty.args[0] in ("Elem", "Node"):
                f = fun("elem_of_str_" + ty.args[0], STR.sort, ty.sort)

                def mk():
                    a, b = z3.Consts("a b", STR.sort)
                    return [forall([a, b], z3.Implies(f(a) == f(b), a == b),
                                   [z3.MultiPattern(f(a), f(b))])]
                TH.add("elem_of_str_" + ty.args[0], mk)
                return f(vals.lit(v.s))
            if ty.k == "seq" and v.s == "":
                return ty.mk(empty_arr(ty.args[0]), 0)
            raise Unsupported("string as %s" % ty)
        if isinstance(v, Tupl):
            if ty.k == "tup" and len(ty.args) == len(v.items):
                return ty.mk(*[self.enc(st, x, a)
                               for x, a in zip(v.items, ty.args)])
            if ty.k == "seq":
                arr, ln = self.as_arr(st, v, ty.args[0])
                return ty.mk(arr, ln)
        if ty.k == "seq":
            arr, ln = self.as_arr(st, v, ty.args[0])
            if isinstance(v, Ref):
                st.heap[v.pid] = p = st.place(v).copy()
                p.escaped = True
            return ty.mk(arr, ln)
        if ty.k == "dict":
            dom, mp = self.as_dict(st, v, ty.args[0], ty.args[1])
            if isinstance(v, Ref):
                st.heap[v.pid] = p = st.place(v).copy()
                p.escaped = True
            return ty.mk(dom, mp)
        if ty.k == "set":
            a = self.as_set(st, v, ty.args[0])
            if isinstance(v, Ref):
                st.heap[v.pid] = p = st.place(v).copy()
                p.escaped = True
            return a
        if isinstance(v, ModelV) and hasattr(v.model, "enc"):
            return v.model.enc(v, ty)
        raise Unsupported("cannot encode %r as %s" % (v, ty))

    def dec(self, ty, t, path=None):
        """value for a term; containers become snapshots"""
        if ty.k in ("int", "real", "bool", "op", "opt", "ref", "arr"):
            dm = self.models.get("dec:" + ty.key)
            if dm:
                return dm(t)
            return T(ty, t)
        if ty.k == "tup":
            return Tupl([self.dec(a, ty.get(i, t)) for i, a in enumerate(ty.args)])
        if ty.k == "seq":
            return SeqV(ty.args[0], ty.get(0, t), ty.get(1, t), ty.args[1],
                        path if ty.args[1] == "list" else None)
        if ty.k == "dict":
            return DictV(ty.args[0], ty.args[1], ty.get(0, t), ty.get(1, t),
                         ty.args[2], path)
        if ty.k == "set":
            return SetV(ty.args[0], t, path)
        raise Unsupported("cannot decode " + ty.key)

    def pure_enc(self, st, v, ty):
        """enc for comparison only: does not mark anything as escaped"""
        return self.enc(st.copy(), v, ty)

    def as_arr(self, st, v, ety=None):
        """(arr, len) terms of a sequence value"""
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "obj" and "__list__" in p.fields:
                return self.as_arr(st, p.fields["__list__"], ety)
            if p.kind != "list":
                raise Unsupported("not a list")
            if p.items is None:
                if ety is None or ety == p.ety:
                    return p.arr, p.ln
                if p.ety == INT and ety == REAL:
                    f = fun("toreal_arr", arr_sort(INT), arr_sort(REAL))

                    def mk():
                        a = z3.Const("a", arr_sort(INT))
                        i = z3.Int("i")
                        return [forall([a, i], f(a)[i] == z3.ToReal(a[i]), [f(a)[i]])]
                    TH.add("toreal_arr", mk)
                    return f(p.arr), p.ln
                raise Unsupported("list of %s used as list of %s" % (p.ety, ety))
            items = p.items
        elif isinstance(v, SeqV):
            if ety is not None and ety != v.ety:
                raise Unsupported("sequence of %s used as %s" % (v.ety, ety))
            return v.arr, v.ln
        elif isinstance(v, Tupl):
            items = v.items
        elif isinstance(v, PStr) and v.s == "" and ety is not None:
            items = []
        else:
            raise Unsupported("not a sequence: %r" % (v,))
        if ety is None:
            ety = UNK
            for x in items:
                ety = self.join(ety, self.type_of(st, x))
            if not self.known(ety):
                raise Unsupported("list with unknown element type")
        arr = empty_arr(ety)
        for i, x in enumerate(items):
            arr = z3.Store(arr, i, self.enc(st, x, ety))
        return arr, z3.IntVal(len(items))

    def as_dict(self, st, v, kty=None, vty=None):
        if isinstance(v, DictV):
            return v.dom, v.mp
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "obj" and "__dict__" in p.fields:
                return self.as_dict(st, p.fields["__dict__"], kty, vty)
            if p.kind != "dict":
                raise Unsupported("not a dict")
            if p.items is None:
                if vty is not None and vty != p.vty:
                    return p.dom, self.conv_map(p.kty, p.vty, vty, p.mp)
                return p.dom, p.mp
            if kty is None or vty is None:
                t = self.type_of(st, v)
                kty, vty = kty or t.args[0], vty or t.args[1]
            if not (self.known(kty) and self.known(vty)):
                raise Unsupported("dict with unknown types")
            dom = z3.K(kty.sort, z3.BoolVal(False))
            mp = z3.Const("emptymap_%s_%s" % (kty.key, vty.key),
                          z3.ArraySort(kty.sort, vty.sort))
            for k, x in p.items.items():
                kt = self.enc(st, key_val(k), kty)
                dom = z3.Store(dom, kt, z3.BoolVal(True))
                mp = z3.Store(mp, kt, self.enc(st, x, vty))
            return dom, mp
        raise Unsupported("not a dict: %r" % (v,))

    def conv_map(self, kty, vty, nty, mp):
        f = fun("convmap_%s_%s_%s" % (kty.key, vty.key, nty.key),
                z3.ArraySort(kty.sort, vty.sort), z3.ArraySort(kty.sort, nty.sort))
        eng = self

        def mk():
            m = z3.Const("m", z3.ArraySort(kty.sort, vty.sort))
            x = z3.Const("x", kty.sort)
            return [forall([m, x], f(m)[x] == eng.enc(
                State(), eng.dec(vty, m[x]), nty), [f(m)[x]])]
        TH.add(f.name(), mk)
        return f(mp)

    def as_set(self, st, v, ety=None):
        if isinstance(v, SetV):
            return v.arr
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "set":
                if p.items is None:
                    return p.arr
                if ety is None:
                    ety = self.type_of(st, v).args[0]
                if not self.known(ety):
                    raise Unsupported("set of unknown type")
                s = z3.K(ety.sort, z3.BoolVal(False))
                for x in p.items:
                    s = z3.Store(s, self.enc(st, x, ety), z3.BoolVal(True))
                return s
        raise Unsupported("not a set: %r" % (v,))

    # --------------------------------------------------------- containers
    def sym_list(self, st, ref, ety=None):
        """force a list place into symbolic form with element type ety"""
        p = st.place(ref)
        if p.items is None and (ety is None or ety == p.ety):
            return p
        cur = self.type_of(st, ref).args[0]
        if ety is None:
            ety = cur
        ety = self.join(ety, cur)
        if not self.known(ety):
            raise Unsupported("list with unknown element type")
        arr, ln = self.as_arr(st, ref, ety)
        q = p.copy()
        q.items, q.ety, q.arr, q.ln = None, ety, arr, ln
        st.heap[ref.pid] = q
        return q

    def sym_dict(self, st, ref, kty=None, vty=None):
        p = st.place(ref)
        t = self.type_of(st, ref)
        k2 = self.join(kty or UNK, t.args[0])
        v2 = self.join(vty or UNK, t.args[1])
        if p.items is None and k2 == p.kty and v2 == p.vty:
            return p
        if not (self.known(k2) and self.known(v2)):
            raise Unsupported("dict with unknown types")
        if p.items is None and k2 != p.kty:
            raise Unsupported("dict key type changes")
        dom, mp = self.as_dict(st, ref, k2, v2)
        q = p.copy()
        if p.dkind == "odict" and p.items is not None:
            arr = empty_arr(k2)
            for i, k in enumerate(p.items):
                arr = z3.Store(arr, i, self.enc(st, key_val(k), k2))
            q.order = (arr, z3.IntVal(len(p.items)))
        q.items, q.kty, q.vty, q.dom, q.mp = None, k2, v2, dom, mp
        st.heap[ref.pid] = q
        return q

    def sym_set(self, st, ref, ety=None):
        p = st.place(ref)
        e2 = self.join(ety or UNK, self.type_of(st, ref).args[0])
        if p.items is None and e2 == p.ety:
            return p
        arr = self.as_set(st, ref, e2)
        q = p.copy()
        q.items, q.ety, q.arr = None, e2, arr
        st.heap[ref.pid] = q
        return q

    def new_list(self, st, items):
        return st.alloc(ListP(items=list(items)))

    def new_symlist(self, st, ety, arr, ln):
        return st.alloc(ListP(ety=ety, arr=arr, ln=ln))

    def listref(self, st, v):
        """the list place behind a value (list or list subclass object)"""
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "list":
                return v
            if p.kind == "obj" and "__list__" in p.fields:
                return p.fields["__list__"]
        return None

    def dictref(self, st, v):
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "dict":
                return v
            if p.kind == "obj" and "__dict__" in p.fields:
                return p.fields["__dict__"]
        return None

    # ---------------------------------------------------------- equality
    def seq_eq(self, st, a, b):
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if ta.k == "tup":
            ta = SEQ(self.join_all(ta.args), "tuple")
        if tb.k == "tup":
            tb = SEQ(self.join_all(tb.args), "tuple")
        e = self.join(ta.args[0], tb.args[0])
        if not self.known(e):
            # both empty
            return True
        aa, la = self.as_arr(st.copy(), a, e)
        ab, lb = self.as_arr(st.copy(), b, e)
        if aa.eq(ab):
            return la == lb
        ca, cb = z3.simplify(la), z3.simplify(lb)
        for c in (ca, cb):
            if z3.is_int_value(c) and c.as_long() <= 4:
                return zand(la == lb, *[self.teq(e, aa[i], ab[i])
                                        for i in range(c.as_long())])
        return z3.And(la == lb, self.seqeq_fn(e)(aa, ab, la))

    def seqeq_fn(self, ty):
        """the first n elements are equal, elementwise"""
        A, Z = arr_sort(ty), z3.IntSort()
        f = fun("seqeq_" + ty.key, A, A, Z, z3.BoolSort())
        d = fun("seqdiff_" + ty.key, A, A, Z, Z)

        def mk():
            a, b = z3.Consts("a b", A)
            n, i = z3.Ints("n i")
            body = z3.Implies(z3.And(f(a, b, n), 0 <= i, i < n), self.teq(ty, a[i], b[i]))
            k = d(a, b, n)
            return [forall([a, b, n, i], body, [z3.MultiPattern(f(a, b, n), a[i])]),
                    forall([a, b, n, i], body, [z3.MultiPattern(f(a, b, n), b[i])]),
                    forall([a, b, n], z3.Or(f(a, b, n), z3.And(
                        0 <= k, k < n, z3.Not(self.teq(ty, a[k], b[k])))), [f(a, b, n)])]
        TH.add("seqeq_" + ty.key, mk)
        return f

    def join_all(self, ts):
        t = UNK
        for x in ts:
            t = self.join(t, x)
        return t

    def teq(self, ty, a, b):
        """python equality of two terms of the same type"""
        if a.eq(b):
            return z3.BoolVal(True)
        if ty.k in ("int", "real", "bool", "op", "ref"):
            return a == b
        if ty.k == "tup":
            return zand(*[self.teq(x, ty.get(i, a), ty.get(i, b))
                          for i, x in enumerate(ty.args)])
        if ty.k == "opt":
            r = ty._dt()[4]
            return z3.Or(z3.And(r(a), r(b)), z3.And(
                z3.Not(r(a)), z3.Not(r(b)),
                self.teq(ty.args[0], ty.get(0, a), ty.get(0, b))))
        if ty.k == "seq":
            la, lb = ty.get(1, a), ty.get(1, b)
            aa, ab = ty.get(0, a), ty.get(0, b)
            if aa.eq(ab):
                return la == lb
            i = z3.Const(fresh_name("i"), z3.IntSort())
            return z3.And(la == lb, forall(i, z3.Implies(
                z3.And(0 <= i, i < la), self.teq(ty.args[0], aa[i], ab[i]))))
        if ty.k == "set":
            x = z3.Const(fresh_name("x"), ty.args[0].sort)
            return forall(x, a[x] == b[x])
        if ty.k == "dict":
            x = z3.Const(fresh_name("x"), ty.args[0].sort)
            return forall(x, z3.And(
                ty.get(0, a)[x] == ty.get(0, b)[x],
                z3.Implies(ty.get(0, a)[x], self.teq(
                    ty.args[1], ty.get(1, a)[x], ty.get(1, b)[x]))))
        raise Unsupported("equality on " + ty.key)

    def eq(self, st, a, b):
        """list of (state, bool) for a == b"""
        # user-defined equality
        for x, y, swap in ((a, b, False), (b, a, True)):
            if isinstance(x, Ref) and st.place(x).kind == "obj":
                m = self.find_method(st.place(x).cls, "__eq__")
                if m is not None:
                    out = []
                    for s2, r in self.call(st, Bound(x, m), [y], {}, None):
                        if isinstance(r, Exc):
                            out.append((s2, r))
                        else:
                            out.extend(self.truth(s2, r))
                    return out
                if isinstance(y, Ref):
                    lr = self.listref(st, x)
                    if lr is not None:
                        return self.eq(st, lr, y) if not swap else self.eq(st, y, lr)
                    return [(st, x.pid == y.pid)]
                return [(st, False)]
            if isinstance(x, ModelV) and hasattr(x.model, "eq"):
                return x.model.eq(self, st, x, y)
        if isinstance(a, T) and isinstance(b, T) and a.ty == b.ty and "eq:" + a.ty.key in self.models:
            return self.models["eq:" + a.ty.key](self, st, a, b)
        return [(st, self.eq_pure(st, a, b))]

    def eq_pure(self, st, a, b):
        if isinstance(a, PStr) and isinstance(b, PStr):
            return a.s == b.s
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            if isinstance(a, NoneV) and isinstance(b, NoneV):
                return True
            o = b if isinstance(a, NoneV) else a
            if isinstance(o, T) and o.ty.k == "opt":
                return o.ty._dt()[4](o.t)
            if isinstance(o, Undef):
                raise Unsupported("undefined variable")
            return False
        if isinstance(a, T) and isinstance(b, T):
            if a.ty == b.ty:
                return self.teq(a.ty, a.t, b.t)
            j = self.join(a.ty, b.ty) if {a.ty.k, b.ty.k} <= {
                "int", "real", "bool"} or "opt" in (a.ty.k, b.ty.k) else None
            if j is not None:
                return self.teq(j, self.enc(st, a, j), self.enc(st, b, j))
            num = ("int", "real", "bool")
            if (a.ty.k in num) != (b.ty.k in num) and \
                    STR in (a.ty, b.ty):
                return False
            raise Unsupported("comparison of %s and %s" % (a.ty, b.ty))
        if isinstance(a, T) and isinstance(b, PStr):
            if a.ty.k in ("int", "real", "bool"):
                return False
            return a.t == self.enc(st, b, a.ty) if a.ty.k != "opt" else \
                self.teq(a.ty, a.t, self.enc(st, b, a.ty))
        if isinstance(b, T) and isinstance(a, PStr):
            return self.eq_pure(st, b, a)
        if isinstance(a, Tupl) and isinstance(b, Tupl):
            if len(a.items) != len(b.items):
                return False
            return zand(*[self.eq1(st, x, y) for x, y in zip(a.items, b.items)])
        ta = self.kind_of(st, a)
        tb = self.kind_of(st, b)
        if ta is not None and tb is not None and ta != tb:
            return False
        if ta in ("list", "tuple", "str") and tb == ta:
            return self.seq_eq(st, a, b)
        if ta == "dict" and tb == "dict":
            t = self.join(self.type_of(st, a), self.type_of(st, b))
            if not self.known(t):
                return True
            return self.teq(t, self.pure_enc(st, a, t), self.pure_enc(st, b, t))
        if ta == "set" and tb == "set":
            t = self.join(self.type_of(st, a), self.type_of(st, b))
            return self.teq(t, self.pure_enc(st, a, t), self.pure_enc(st, b, t))
        if isinstance(a, (Builtin, ExtCls, Cls)) and \
                isinstance(b, (Builtin, ExtCls, Cls)):
            na = getattr(a, "name", None) or a.info
            nb = getattr(b, "name", None) or b.info
            return na == nb
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.pid == b.pid
        raise Unsupported("comparison of %r and %r" % (a, b))

    def eq1(self, st, a, b):
        r = self.eq(st, a, b)
        if len(r) != 1 or isinstance(r[0][1], Exc) or r[0][0] is not st:
            raise Unsupported("comparison with side effects")
        return r[0][1]

    def kind_of(self, st, v):
        if isinstance(v, SeqV):
            return v.kind
        if isinstance(v, Tupl):
            return "tuple"
        if isinstance(v, PStr):
            return "str"
        if isinstance(v, DictV):
            return "dict"
        if isinstance(v, SetV):
            return "set"
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "obj":
                if "__list__" in p.fields:
                    return "list"
                if "__dict__" in p.fields:
                    return "dict"
                return None
            return p.kind
        if isinstance(v, T):
            return {"int": "num", "real": "num", "bool": "num"}.get(v.ty.k) or (
                "str" if v.ty == STR else None)
        return None

    # -------------------------------------------------------------- truth
    def truth(self, st, v):
        if isinstance(v, T):
            if "truth:" + v.ty.key in self.models:
                return self.models["truth:" + v.ty.key](self, st, v)
            k = v.ty.k
            if k == "bool":
                return [(st, v.t)]
            if k in ("int", "real"):
                return [(st, v.t != 0)]
            if v.ty == STR:
                return [(st, v.t != vals.lit(""))]
            if k == "opt":
                r = v.ty._dt()[4](v.t)
                out = []
                for s2, c in self.truth(st, self.dec(v.ty.args[0], v.ty.get(0, v.t))):
                    out.append((s2, zand(z3.Not(r), c)))
                return out
            if k == "op":
                f = fun("truthy_" + v.ty.key, v.ty.sort, z3.BoolSort())
                return [(st, f(v.t))]
            if k == "ref":
                return [(st, True)]
        if isinstance(v, PStr):
            return [(st, bool(v.s))]
        if isinstance(v, NoneV):
            return [(st, False)]
        if isinstance(v, Tupl):
            return [(st, bool(v.items))]
        if isinstance(v, SeqV):
            return [(st, v.ln > 0)]
        if isinstance(v, DictV):
            return [(st, card_fn(v.kty)(v.dom) > 0)]
        if isinstance(v, SetV):
            return [(st, card_fn(v.ety)(v.arr) > 0)]
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "obj":
                for nm in ("__nonzero__", "__len__"):
                    m = self.find_method(p.cls, nm)
                    if m is not None:
                        out = []
                        for s2, r in self.call(st, Bound(v, m), [], {}, None):
                            if isinstance(r, Exc):
                                out.append((s2, r))
                            else:
                                out.extend(self.truth(s2, r))
                        return out
                for f in ("__list__", "__dict__"):
                    if f in p.fields:
                        return self.truth(st, p.fields[f])
                return [(st, True)]
            return [(st, self.zlen(st, v) > 0)]
        if isinstance(v, ModelV):
            if hasattr(v.model, "truth"):
                return v.model.truth(self, st, v)
            return [(st, True)]
        if isinstance(v, (Fn, Builtin, Cls, ExtCls, Bound, UFn, Mod)):
            return [(st, True)]
        raise Unsupported("truth value of %r" % (v,))

    def zlen(self, st, v):
        """length term of a container value"""
        if isinstance(v, PStr):
            return z3.IntVal(len(v.s))
        if isinstance(v, Tupl):
            return z3.IntVal(len(v.items))
        if isinstance(v, SeqV):
            return v.ln
        if isinstance(v, DictV):
            return card_fn(v.kty)(v.dom)
        if isinstance(v, SetV):
            return card_fn(v.ety)(v.arr)
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "list":
                return z3.IntVal(len(p.items)) if p.items is not None else p.ln
            if p.kind == "dict":
                if p.items is not None:
                    return z3.IntVal(len(p.items))
                if p.order is not None:
                    return p.order[1]
                return card_fn(p.kty)(p.dom)
            if p.kind == "set":
                if p.items is not None:
                    if len(p.items) <= 1:
                        return z3.IntVal(len(p.items))
                    e = self.type_of(st, v).args[0]
                    return card_fn(e)(self.as_set(st, v))
                return card_fn(p.ety)(p.arr)
            if "__list__" in p.fields:
                return self.zlen(st, p.fields["__list__"])
            if "__dict__" in p.fields:
                return self.zlen(st, p.fields["__dict__"])
        if isinstance(v, T) and v.ty == STR:
            f = fun("strlen", STR.sort, z3.IntSort())
            def mk():
                s = z3.Const("s", STR.sort)
                return [forall(s, z3.And(f(s) >= 0, (f(s) == 0) == (s == vals.lit(""))), [f(s)])]
            TH.add("strlen", mk)
            return f(v.t)
        if isinstance(v, ModelV) and hasattr(v.model, "zlen"):
            return v.model.zlen(self, st, v)
        raise Unsupported("len of %r" % (v,))

    # ------------------------------------------------------------- lookup
    def find_method(self, cls, name, start_after=None):
        """method of a class through its bases (left to right, depth first)"""
        for c in self.mro(cls):
            if start_after is not None:
                if c is start_after:
                    start_after = None
                continue
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return Fn(c.methods[name])
                if name in c.attrs:
                    a = c.attrs[name]
                    if a.kind == "Name" and a.id in c.methods:
                        return Fn(c.methods[a.id])
            else:
                key = "%s.%s" % (c, name)
                if key in self.method_models:
                    return Builtin("model:" + key)
        return None

    def mro(self, cls):
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            if isinstance(c, ClassInfo):
                for b in c.node.bases:
                    r = self.resolve_class(c.mod, b)
                    go(r)
        go(cls)
        if "object" in out:
            out.remove("object")
            out.append("object")
        return out

    def resolve_class(self, mod, node):
        """ClassInfo or the name of an external class"""
        try:
            v = self.static(mod, node)
        except Unsupported:
            v = None
        if isinstance(v, Cls):
            return v.info
        if isinstance(v, (ExtCls, Builtin)):
            if v.name.startswith("networkx.classes."):
                return "networkx." + v.name.split(".")[-1]
            return v.name
        return "?"

    def static(self, mod, node):
        r = self.ev(self._mod_state(mod), node)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Unsupported("static name")
        return r[0][1]

    def _mod_state(self, mod):
        st = State()
        st.env = {"__module__": mod}
        return st

    BUILTINS = set("""len range xrange zip enumerate min max sum abs float int
        round list tuple set dict str repr sorted reversed isinstance type
        hasattr getattr setattr any all map filter reduce cmp iter next
        unicode bool frozenset object long hash id callable basestring
        slice file open print vars super dir exit""".split())

    def lookup(self, st, name, mod):
        if name in st.env:
            v = st.env[name]
            if isinstance(v, Undef):
                raise Unsupported("variable %s: %s" % (name, v.why))
            return self.refresh(st, v)
        clo = st.env.get("__closure__")
        while clo is not None:
            if name in clo:
                return clo[name]
            clo = clo.get("__closure__")
        v = self.global_name(st, name, mod)
        if v is not None:
            return v
        if name == "None":
            return NONE
        if name == "True":
            return B(True)
        if name == "False":
            return B(False)
        if name == "NotImplemented":
            return ExtCls("NotImplemented")
        if name in ("__doc__", "__file__") and mod is not None:
            return T(STR, z3.Const("%s of %s" % (name, mod.name), STR.sort))
        if name in EXC_BASES:
            return ExtCls(name)
        if name in self.BUILTINS:
            return Builtin(name)
        return None

    def global_name(self, st, name, mod):
        if mod is None:
            return None
        key = "%s.%s" % (mod.name, name)
        if key in self.models:
            return self.model_value(key)
        d = mod.names.get(name)
        if d is None:
            for m in mod.names.get("*", []):
                m2 = self.prog.get(m) or self.prog.get(
                    mod.name.rsplit(".", 1)[0] + "." + m)
                if m2 and name in m2.names:
                    return self.global_name(st, name, m2)
            return None
        return self.wrap(st, d, mod, name)

    def model_value(self, full):
        """what a contract puts in the place of an imported name: a function or a value"""
        x = self.models[full]
        if isinstance(x, ModelV):
            self.assumed.add(full)
            return x
        return Builtin("model:" + full)

    def wrap(self, st, d, mod, name):
        if isinstance(d, FuncInfo):
            return Fn(d)
        if isinstance(d, ClassInfo):
            return Cls(d)
        if d[0] == "mod":
            return Mod(d[1])
        if d[0] == "from":
            full = "%s.%s" % (d[1], d[2])
            if full in self.models:
                return self.model_value(full)
            m2 = self.prog.get(d[1]) if d[1].split(".")[0] == "daeso" else None
            if m2 is None:
                # implicit relative import
                rel = mod.name.rsplit(".", 1)[0] + "." + d[1]
                m2 = self.prog.get(rel) if d[1] and rel.startswith("daeso") else None
            if m2 is not None:
                if d[2] in m2.names:
                    return self.global_name(st, d[2], m2)
                if self.prog.get(full):
                    return Mod(full)
                return None
            if self.prog.get(full) if d[1].startswith("daeso") else None:
                return Mod(full)
            return self.ext(full)
        if d[0] in ("expr", "item"):
            s2 = State()
            s2.env = {"__module__": mod}
            s2.heap = st.heap
            s2.ver = st.ver
            r = self.ev(s2, d[1])
            if len(r) != 1 or isinstance(r[0][1], Exc):
                raise Unsupported("module level value of " + name)
            v = r[0][1]
            # shared between calls: must not be mutated
            st.heap, st.ver = r[0][0].heap, r[0][0].ver
            if d[0] == "item":
                if not isinstance(v, Tupl):
                    raise Unsupported("module level value of " + name)
                return v.items[d[2]]
            if isinstance(v, Ref):
                p = st.heap[v.pid].copy()
                p.escaped = True
                st.heap[v.pid] = p
            return v
        raise Unsupported("global " + name)

    def ext(self, full):
        """name of an external (library) object"""
        if full in ("sys.maxint",):
            # machine constant, treated as an arbitrary huge integer
            mi = z3.Int("sys_maxint")
            TH.add("maxint", lambda: [mi == 2147483647])
            return T(INT, mi)
        if full == "string.punctuation":
            return PStr("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
        last = full.rsplit(".", 1)[-1]
        if last in EXC_BASES:
            return ExtCls(last)
        return Builtin(full)

    # --------------------------------------------------------- expression
    def ev(self, st, e):
        m = getattr(self, "ev_" + e.kind, None)
        if m is None:
            raise Unsupported("expression " + e.kind)
        return m(st, e)

    def bind(self, rs, f):
        out = []
        for s, v in rs:
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def evs(self, st, es):
        """evaluate a list of expressions left to right"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(s, e):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            outs = nxt
        return outs

    def ev_Num(self, st, e):
        if isinstance(e.n, bool):
            return [(st, B(e.n))]
        if isinstance(e.n, int):
            return [(st, I(e.n))]
        if isinstance(e.n, float):
            return [(st, T(REAL, z3.RealVal(repr(e.n))))]
        raise Unsupported("complex number")

    def ev_Str(self, st, e):
        return [(st, PStr(e.s))]

    def ev_Name(self, st, e):
        v = self.lookup(st, e.id, st.env.get("__module__"))
        if v is None:
            return [(st, Exc("NameError", PStr(e.id), e.line))]
        return [(st, v)]

    def ev_Tuple(self, st, e):
        return self.bind(self.evs(st, e.elts), lambda s, vs: [(s, Tupl(vs))])

    def ev_List(self, st, e):
        return self.bind(self.evs(st, e.elts),
                         lambda s, vs: [(s, self.new_list(s, vs))])

    def ev_Set(self, st, e):
        def f(s, vs):
            r = s.alloc(SetP(items=[]))
            for v in vs:
                self.set_add(s, r, v)
            return [(s, r)]
        return self.bind(self.evs(st, e.elts), f)

    def ev_Dict(self, st, e):
        def f(s, vs):
            n = len(e.keys)
            r = s.alloc(DictP(items={}))
            outs = [(s, r)]
            for k, v in zip(vs[:n], vs[n:]):
                for s2, _ in outs:
                    self.dict_set(s2, r, k, v)
            return outs
        return self.bind(self.evs(st, list(e.keys) + list(e.values)), f)

    def ev_IfExp(self, st, e):
        out = []
        for s, c in self.cond(st, e.test):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            a, b = self.branch(s, c)
            if a is not None:
                out.extend(self.ev(a, e.body))
            if b is not None:
                out.extend(self.ev(b, e.orelse))
        return out

    def cond(self, st, e):
        """evaluate a test to (state, z3/py bool)"""
        if e.kind == "UnaryOp" and e.op.kind == "Not":
            return self.bind(self.cond(st, e.operand),
                             lambda s, c: [(s, znot(c) if c not in (True, False)
                                            else (not c))])
        if e.kind == "BoolOp":
            isand = e.op.kind == "And"
            outs = []
            work = [(st, 0)]
            while work:
                s, i = work.pop()
                for s2, c in self.cond(s, e.values[i]):
                    if isinstance(c, Exc) or i == len(e.values) - 1:
                        outs.append((s2, c))
                        continue
                    a, b = self.branch(s2, c)
                    go, stop = (a, b) if isand else (b, a)
                    if stop is not None:
                        outs.append((stop, not isand))
                    if go is not None:
                        work.append((go, i + 1))
            return outs
        out = []
        for s, v in self.ev(st, e):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    def ev_BoolOp(self, st, e):
        isand = e.op.kind == "And"
        outs = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            for s2, v in self.ev(s, e.values[i]):
                if isinstance(v, Exc) or i == len(e.values) - 1:
                    outs.append((s2, v))
                    continue
                for s3, c in self.truth(s2, v):
                    if isinstance(c, Exc):
                        outs.append((s3, c))
                        continue
                    a, b = self.branch(s3, c)
                    go, stop = (a, b) if isand else (b, a)
                    if stop is not None:
                        v2 = v
                        if isinstance(v, T) and v.ty.k == "opt" and not isand:
                            # value is truthy, hence not None
                            v2 = self.dec(v.ty.args[0], v.ty.get(0, v.t))
                        outs.append((stop, v2))
                    if go is not None:
                        work.append((go, i + 1))
        return outs

    def ev_UnaryOp(self, st, e):
        if e.op.kind == "Not":
            return self.bind(self.cond(st, e), lambda s, c: [(s, B(c))])

        def f(s, v):
            if isinstance(v, T) and v.ty.k in ("int", "real", "bool"):
                t = self.enc(s, v, INT) if v.ty.k == "bool" else v.t
                ty = INT if v.ty.k == "bool" else v.ty
                if e.op.kind == "USub":
                    return [(s, T(ty, -t))]
                if e.op.kind == "UAdd":
                    return [(s, T(ty, t))]
            raise Unsupported("unary " + e.op.kind)
        return self.bind(self.ev(st, e.operand), f)

    def ev_BinOp(self, st, e):
        return self.bind(self.evs(st, [e.left, e.right]),
                         lambda s, vs: self.binop(s, e.op.kind, vs[0], vs[1], e))

    def num(self, st, v):
        if isinstance(v, T) and v.ty.k in ("int", "real"):
            return v
        if isinstance(v, T) and v.ty.k == "bool":
            return T(INT, z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return None

    BINM = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__",
            "BitAnd": "__and__", "BitOr": "__or__", "Div": "__div__"}

    def binop(self, st, op, a, b, e):
        for x, y, nm in ((a, b, self.BINM.get(op)),
                         (b, a, (self.BINM.get(op) or "").replace("__", "__r", 1))):
            if isinstance(x, Ref) and st.place(x).kind == "obj" and nm:
                m = self.find_method(st.place(x).cls, nm)
                if m is not None:
                    return self.call(st, Bound(x, m), [y], {}, e)
        x, y = self.num(st, a), self.num(st, b)
        if x is not None and y is not None:
            return self.arith(st, op, x, y, e)
        ka, kb = self.kind_of(st, a), self.kind_of(st, b)
        if op == "Mod" and ka == "str":
            if isinstance(a, PStr):
                k = None
                items = b.items if isinstance(b, Tupl) else [b]
                ks = [self.pyconst(x) for x in items]
                if all(k is not None for k in ks):
                    try:
                        return [(st, PStr(a.s % tuple(x[0] for x in ks)))]
                    except (TypeError, ValueError):
                        pass
                try:
                    f = fun("fmt%d" % len(items), *([STR.sort] + [
                        self.type_of(st, x).sort for x in items] + [STR.sort]))
                    return [(st, T(STR, f(vals.lit(a.s), *[
                        self.enc(st.copy(), x, self.type_of(st, x)) for x in items])))]
                except Unsupported:
                    return [(st, T(STR, z3.Const(fresh_name("fmt"), STR.sort)))]
            return [(st, T(STR, z3.Const(fresh_name("fmt"), STR.sort)))]
        if op == "Add" and ka in ("list", "tuple", "str") and ka == kb:
            return [(st, self.concat(st, a, b))]
        if op == "Mult":
            if ka in ("list", "tuple", "str") and y is not None:
                return [(st, self.repeat(st, a, y))]
            if kb in ("list", "tuple", "str") and x is not None:
                return [(st, self.repeat(st, b, x))]
        if ka == "set" and kb == "set":
            nm = {"BitAnd": "intersection", "BitOr": "union",
                  "Sub": "difference"}.get(op)
            if nm:
                return self.call_method(st, a, nm, [b], {}, e)
        raise Unsupported("%s on %r and %r" % (op, a, b))

    def pyconst(self, v):
        """(python value,) of a concrete value"""
        if isinstance(v, PStr):
            return (v.s,)
        i = const_int(v)
        if i is not None and v.ty == INT:
            return (i,)
        return None

    def arith(self, st, op, x, y, e):
        real = REAL in (x.ty, y.ty)
        ty = REAL if real else INT
        a = self.enc(st, x, ty)
        b = self.enc(st, y, ty)
        if op == "Add":
            return [(st, T(ty, a + b))]
        if op == "Sub":
            return [(st, T(ty, a - b))]
        if op == "Mult":
            return [(st, T(ty, a * b))]
        if op in ("Div", "FloorDiv", "Mod"):
            out = []
            nz, z = self.branch(st, b != 0)
            if nz is not None:
                if ty == REAL and op == "Div":
                    out.append((nz, T(REAL, a / b)))
                elif ty == INT and op in ("Div", "FloorDiv"):
                    # python 2 floor division (z3 div floors for b > 0)
                    cb = z3.simplify(b)
                    if z3.is_int_value(cb) and cb.as_long() > 0:
                        q = a / b
                    else:
                        q = z3.If(b > 0, a / b, (-a) / (-b))
                    out.append((nz, T(INT, q)))
                elif ty == INT and op == "Mod":
                    q = z3.If(b > 0, a / b, (-a) / (-b))
                    out.append((nz, T(INT, a - b * q)))
                else:
                    raise Unsupported("float " + op)
            if z is not None:
                out.append((z, Exc("ZeroDivisionError", None, e.line if e else None)))
            return out
        if op == "Pow":
            n = const_int(y)
            if n is not None and 0 <= n <= 8 and y.ty == INT:
                t = z3.IntVal(1) if x.ty == INT else z3.RealVal(1)
                for _ in range(n):
                    t = t * x.t if _ else x.t
                return [(st, T(x.ty, t))]
            m = const_int(x)
            if m == 2 and y.ty == INT:
                f = fun("pow2", z3.IntSort(), z3.IntSort())
                return [(st, T(INT, f(y.t)))]
        raise Unsupported("arithmetic " + op)

    def concat(self, st, a, b):
        ka = self.kind_of(st, a)
        if isinstance(a, PStr) and isinstance(b, PStr):
            return PStr(a.s + b.s)
        if isinstance(a, T) or isinstance(b, T):
            f = fun("strcat", STR.sort, STR.sort, STR.sort)
            return T(STR, f(self.enc(st, a, STR), self.enc(st, b, STR)))
        if isinstance(a, Tupl) and isinstance(b, Tupl):
            return Tupl(a.items + b.items)
        ia, ib = self.conc_items(st, a), self.conc_items(st, b)
        if ia is not None and ib is not None and ka == "list":
            return self.new_list(st, ia + ib)
        ta, tb = self.seq_ty(st, a), self.seq_ty(st, b)
        e = self.join(ta, tb)
        if not self.known(e):
            raise Unsupported("concatenation of unknown element types")
        aa, la = self.as_arr(st.copy(), a, e)
        ab, lb = self.as_arr(st.copy(), b, e)
        if ia is not None and not ia:
            arr = ab
        elif ib is not None:
            arr = aa
            for i, x in enumerate(ib):
                arr = z3.Store(arr, la + i, self.enc(st, x, e))
        else:
            arr = concat_fn(e)(aa, la, ab)
        ln = la + lb
        if ka == "list":
            r = self.new_symlist(st, e, arr, ln)
            st.place(r).shared = self.mutable_ty(e)
            return r
        return SeqV(e, arr, ln, ka)

    def mutable_ty(self, e):
        if e.k == "seq":
            return e.args[1] == "list"
        if e.k in ("dict", "set"):
            return True
        return any(self.mutable_ty(a) for a in e.args if isinstance(a, Ty))

    def conc_items(self, st, v):
        if isinstance(v, Tupl):
            return v.items
        if isinstance(v, Ref):
            lr = self.listref(st, v)
            if lr is not None:
                return st.place(lr).items
        return None

    def seq_ty(self, st, v):
        t = self.type_of(st, v) if self.listref(st, v) is None else \
            self.type_of(st, self.listref(st, v))
        if t.k == "tup":
            return self.join_all(t.args)
        if t.k == "seq":
            return t.args[0]
        if isinstance(v, PStr):
            return UNK if v.s == "" else STR
        raise Unsupported("not a sequence")

    def repeat(self, st, a, n):
        k = self.kind_of(st, a)
        c = const_int(n)
        if isinstance(a, PStr):
            if c is not None:
                return PStr(a.s * c)
            if len(a.s) == 1 and self.cur is not None and getattr(
                    self.cur, "char_ty", None):
                cty = self.cur.char_ty
                return SeqV(cty, const_arr(cty, self.enc(st, a, cty)),
                            z3.If(n.t > 0, n.t, z3.IntVal(0)), "str")
            f = fun("strrep", STR.sort, z3.IntSort(), STR.sort)
            return T(STR, f(vals.lit(a.s), n.t))
        if isinstance(a, T) and a.ty == STR:
            f = fun("strrep", STR.sort, z3.IntSort(), STR.sort)
            return T(STR, f(a.t, n.t))
        items = self.conc_items(st, a)
        if items is not None and c is not None:
            its = list(items) * max(c, 0)
            if k == "tuple":
                return Tupl(its)
            r = self.new_list(st, its)
            return r
        e = self.seq_ty(st, a)
        if not self.known(e):
            raise Unsupported("repetition of unknown element type")
        ln = z3.If(n.t > 0, n.t, z3.IntVal(0))
        if items is not None and len(items) == 1:
            arr = const_arr(e, self.enc(st, items[0], e))
        else:
            # general repetition: element i is a[i mod len(a)]
            aa, la = self.as_arr(st.copy(), a, e)
            arr = z3.Const(fresh_name("rep"), arr_sort(e))
            i = z3.Int(fresh_name("i"))
            st.assume(forall(i, z3.Implies(
                z3.And(0 <= i, i < la * ln), arr[i] == aa[i % la]), [arr[i]]))
            ln = ln * la
        if k == "list":
            r = self.new_symlist(st, e, arr, ln)
            st.place(r).shared = self.mutable_ty(e)
            return r
        return SeqV(e, arr, ln, k)

    def ev_Compare(self, st, e):
        """chained comparisons"""
        def go(s, left, i):
            outs = []
            for s2, right in self.ev(s, e.comparators[i]):
                if isinstance(right, Exc):
                    outs.append((s2, right))
                    continue
                for s3, c in self.compare(s2, e.ops[i].kind, left, right, e):
                    if isinstance(c, Exc) or i == len(e.ops) - 1:
                        outs.append((s3, c if isinstance(c, Exc) else B(c)))
                        continue
                    a, b = self.branch(s3, c)
                    if b is not None:
                        outs.append((b, B(False)))
                    if a is not None:
                        outs.extend(go(a, right, i + 1))
            return outs
        return self.bind(self.ev(st, e.left), lambda s, v: go(s, v, 0))

    def compare(self, st, op, a, b, e=None):
        if op == "Eq":
            return self.eq(st, a, b)
        if op == "NotEq":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and st.place(x).kind == "obj":
                    m = self.find_method(st.place(x).cls, "__ne__")
                    if m is not None:
                        out = []
                        for s2, r in self.call(st, Bound(x, m), [y], {}, None):
                            if isinstance(r, Exc):
                                out.append((s2, r))
                            else:
                                out.extend(self.truth(s2, r))
                        return out
                    m = self.find_method(st.place(x).cls, "__eq__")
                    if m is not None:
                        # python 2: without __ne__, != compares identities
                        return [(st, not (isinstance(y, Ref) and x.pid == y.pid))]
            return self.bind(self.eq(st, a, b), lambda s, c: [
                (s, (not c) if c in (True, False) else z3.Not(c))])
        if op in ("Is", "IsNot"):
            h = [self.models["is:" + x.ty.key] for x in (a, b) if isinstance(x, T) and "is:" + x.ty.key in self.models]
            r = h[0](self, st, a, b) if h else self.same(st, a, b)
            if op == "IsNot":
                r = (not r) if r in (True, False) else z3.Not(r)
            return [(st, r)]
        if op in ("In", "NotIn"):
            out = []
            for s, c in self.contains(st, b, a):
                if isinstance(c, Exc):
                    out.append((s, c))
                elif op == "In":
                    out.append((s, c))
                else:
                    out.append((s, (not c) if c in (True, False) else z3.Not(c)))
            return out
        x, y = self.num(st, a), self.num(st, b)
        if x is not None and y is not None:
            ty = REAL if REAL in (x.ty, y.ty) else INT
            p, q = self.enc(st, x, ty), self.enc(st, y, ty)
            return [(st, {"Lt": p < q, "LtE": p <= q, "Gt": p > q,
                          "GtE": p >= q}[op])]
        if op in ("Gt", "GtE"):
            return self.compare(st, {"Gt": "Lt", "GtE": "LtE"}[op], b, a, e)
        r = self.less(st, a, b, op == "LtE")
        return [(st, r)]

    def less(self, st, a, b, oreq):
        """a < b (a <= b) for tuples, strings, opaque ordered sorts"""
        x, y = self.num(st, a), self.num(st, b)
        if x is not None and y is not None:
            ty = REAL if REAL in (x.ty, y.ty) else INT
            p, q = self.enc(st, x, ty), self.enc(st, y, ty)
            return p <= q if oreq else p < q
        if isinstance(a, PStr) and isinstance(b, PStr):
            return a.s <= b.s if oreq else a.s < b.s
        if isinstance(a, Tupl) and isinstance(b, Tupl):
            return self._lex(st, a.items, b.items, oreq)
        if isinstance(a, T) and isinstance(b, T) and a.ty == b.ty and a.ty.k == "op":
            f = self.order_fn(a.ty)
            return zor(a.t == b.t, f(a.t, b.t)) if oreq else f(a.t, b.t)
        if isinstance(a, (T, PStr)) and isinstance(b, (T, PStr)):
            ta, tb = self.type_of(st, a), self.type_of(st, b)
            if ta == tb == STR:
                p, q = self.enc(st, a, STR), self.enc(st, b, STR)
                f = self.order_fn(STR)
                return zor(p == q, f(p, q)) if oreq else f(p, q)
        raise Unsupported("ordering of %r and %r" % (a, b))

    def _lex(self, st, xs, ys, oreq):
        if not xs or not ys:
            if not xs and not ys:
                return oreq
            return not xs
        e = self.eq1(st, xs[0], ys[0])
        l = self.less(st, xs[0], ys[0], False)
        if e is True:
            return self._lex(st, xs[1:], ys[1:], oreq)
        if e is False:
            return l
        return zor(l, zand(e, self._lex(st, xs[1:], ys[1:], oreq)))

    def order_fn(self, ty):
        """a strict total order on an opaque sort"""
        f = fun("lt_" + ty.key, ty.sort, ty.sort, z3.BoolSort())

        def mk():
            a, b, c = z3.Consts("a b c", ty.sort)
            ax = [forall([a, b], z3.Not(z3.And(f(a, b), f(b, a))), [f(a, b)]),
                  forall([a, b], z3.Or(f(a, b), f(b, a), a == b), [f(a, b)]),
                  forall([a, b, c], z3.Implies(z3.And(f(a, b), f(b, c)), f(a, c)),
                         [z3.MultiPattern(f(a, b), f(b, c))])]
            return ax
        TH.add("lt_" + ty.key, mk)
        return f

    def same(self, st, a, b):
        """identity"""
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return self.eq_pure(st, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.pid == b.pid
        if isinstance(a, (Ref,)) != isinstance(b, (Ref,)):
            return False
        if isinstance(a, ModelV) and hasattr(a.model, "same"):
            return a.model.same(self, st, a, b)
        if isinstance(a, T) and isinstance(b, T) and a.ty == b.ty and \
                a.ty.k in ("op", "ref"):
            return a.t == b.t
        if isinstance(a, T) and isinstance(b, T) and a.ty.k == b.ty.k == "bool":
            return a.t == b.t
        raise Unsupported("identity of %r and %r" % (a, b))

    def contains(self, st, c, x):
        """x in c"""
        if isinstance(c, Ref) and st.place(c).kind == "obj":
            m = self.find_method(st.place(c).cls, "__contains__")
            if m is not None:
                out = []
                for s2, r in self.call(st, Bound(c, m), [x], {}, None):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                    else:
                        out.extend(self.truth(s2, r))
                return out
            for f in ("__list__", "__dict__"):
                if f in st.place(c).fields:
                    return self.contains(st, st.place(c).fields[f], x)
        if isinstance(c, PStr):
            if isinstance(x, PStr):
                return [(st, x.s in c.s)]
            f = fun("substr", STR.sort, STR.sort, z3.BoolSort())
            return [(st, f(self.enc(st, x, STR), vals.lit(c.s)))]
        if isinstance(c, ModelV):
            return c.model.contains(self, st, c, x)
        items = None
        if isinstance(c, Tupl):
            items = c.items
        elif isinstance(c, Ref):
            p = st.place(c)
            if p.kind in ("list", "set") and p.items is not None:
                items = p.items
            elif p.kind == "dict" and p.items is not None:
                items = [key_val(k) for k in p.items]
        if items is not None:
            r = []
            for y in items:
                q = self.eq1(st, x, y)
                if q is True:
                    return [(st, True)]
                if q is not False:
                    r.append(q)
            return [(st, zor(*r) if r else False)]
        kd = self.kind_of(st, c)
        if kd == "dict":
            dom, kty = self.dom_of(st, c)
            return [(st, dom[self.enc(st, x, kty)])]
        if kd == "set":
            if isinstance(c, SetV):
                return [(st, c.arr[self.enc(st, x, c.ety)])]
            p = st.place(c)
            return [(st, p.arr[self.enc(st, x, p.ety)])]
        if kd in ("list", "tuple", "str"):
            ety = self.seq_ty(st, c)
            arr, ln = self.as_arr(st, c)
            t = self.enc(st, x, ety)
            if ety.k in ("int", "real", "bool", "op", "ref", "tup") or True:
                return [(st, elems_fn(ety)(arr, ln)[t])]
        raise Unsupported("in %r" % (c,))

    def dom_of(self, st, c):
        if isinstance(c, DictV):
            return c.dom, c.kty
        r = self.dictref(st, c)
        p = st.place(r)
        return p.dom, p.kty

    # ------------------------------------------------------- subscription
    def ev_Subscript(self, st, e):
        def f(s, vs):
            return self.getitem(s, vs[0], vs[1], e)
        out = []
        for s, b in self.ev(st, e.value):
            if isinstance(b, Exc):
                out.append((s, b))
                continue
            for s2, i in self.ev_slice(s, e.slice):
                if isinstance(i, Exc):
                    out.append((s2, i))
                else:
                    out.extend(self.getitem(s2, b, i, e))
        return out

    def ev_slice(self, st, sl):
        if sl.kind == "Index":
            return self.ev(st, sl.value)
        if sl.kind == "Slice":
            es = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]

            def f(s, vs):
                vs = list(vs)
                r = []
                for x in (sl.lower, sl.upper, sl.step):
                    r.append(vs.pop(0) if x is not None else None)
                if isinstance(r[2], NoneV):
                    r[2] = None
                return [(s, SliceV(*r, ext=sl.step is not None))]
            return self.bind(self.evs(st, es), f)
        raise Unsupported("slice " + sl.kind)

    def getitem(self, st, b, i, e=None):
        line = e.line if e is not None else None
        if isinstance(b, T) and b.ty.k == "opt":
            return self.unopt(st, b, lambda s, v: self.getitem(s, v, i, e), e)
        if isinstance(b, ModelV):
            return b.model.getitem(self, st, b, i, e)
        if isinstance(b, Ref) and st.place(b).kind == "obj":
            p = st.place(b)
            nm = "__getitem__"
            if isinstance(i, SliceV):
                m = self.find_method(p.cls, "__getslice__")
                if m is not None and i.step is None and not i.ext:
                    mi = self.ext("sys.maxint")
                    lo = i.lo if i.lo is not None else I(0)
                    hi = i.hi if i.hi is not None else mi
                    ln = self.zlen(st, b)
                    st.assume(ln <= mi.t)   # sys.maxint: no list is longer
                    fix = lambda v: T(INT, z3.If(v.t < 0, v.t + ln, v.t))
                    return self.call(st, Bound(b, m), [fix(lo), fix(hi)], {}, e)
            m = self.find_method(p.cls, nm)
            if m is not None:
                return self.call(st, Bound(b, m), [i], {}, e)
            for f in ("__list__", "__dict__"):
                if f in p.fields:
                    return self.getitem(st, p.fields[f], i, e)
            return [(st, Exc("AttributeError", None, line))]
        kd = self.kind_of(st, b)
        if isinstance(i, SliceV):
            return self.getslice(st, b, i, e)
        if kd == "dict":
            return self.dict_get(st, b, i, line)
        if kd in ("list", "tuple") or isinstance(b, (SeqV, PStr)):
            n = self.num(st, i)
            if n is None or n.ty != INT:
                raise Unsupported("index %r" % (i,))
            return self.seq_get(st, b, n, line)
        if isinstance(b, T) and b.ty == STR:
            k = const_int(i)
            if k is None or k < 0:
                raise Unsupported("character of an opaque string")
            f = fun("strslice", STR.sort, z3.IntSort(), z3.IntSort(), STR.sort)
            return [(s, T(STR, f(b.t, z3.IntVal(k), z3.IntVal(k + 1))) if ok else Exc("IndexError", None, line))
                    for s, ok in self.split(st, self.zlen(st, b) > k)]
        raise Unsupported("subscript of %r" % (b,))

    def unopt(self, st, v, f, e=None):
        """case split on a possibly-None value; None has no operations"""
        r = v.ty._dt()[4](v.t)
        a, b = self.branch(st, r)
        out = []
        if a is not None:
            out.append((a, Exc("TypeError", None, e.line if e is not None else None)))
        if b is not None:
            out.extend(f(b, self.dec(v.ty.args[0], v.ty.get(0, v.t))))
        return out

    def index_cases(self, st, n, ln, line):
        """[(state, nonneg index term)] plus IndexError state"""
        i = n.t
        if self.entails(st, z3.And(0 <= i, i < ln)):
            return [(st, i)]
        out = []
        a, rest = self.branch(st, z3.And(0 <= i, i < ln))
        if a is not None:
            out.append((a, i))
        if rest is not None:
            b, c = self.branch(rest, z3.And(i < 0, -ln <= i))
            if b is not None:
                out.append((b, i + ln))
            if c is not None:
                out.append((c, Exc("IndexError", None, line)))
        return out

    def seq_get(self, st, b, n, line):
        items = self.conc_items(st, b)
        if isinstance(b, PStr):
            items = [PStr(c) for c in b.s]
        if items is not None:
            c = const_int(n)
            if c is not None:
                if -len(items) <= c < len(items):
                    return [(st, items[c])]
                return [(st, Exc("IndexError", None, line))]
            out = []
            for s2, i in self.index_cases(st, n, z3.IntVal(len(items)), line):
                if isinstance(i, Exc):
                    out.append((s2, i))
                    continue
                for k, x in enumerate(items):
                    a, _ = self.branch(s2, i == k)
                    if a is not None:
                        out.append((a, x))
            return out
        ety = self.seq_ty(st, b)
        arr, ln = self.as_arr(st, b)
        out = []
        for s2, i in self.index_cases(st, n, ln, line):
            if isinstance(i, Exc):
                out.append((s2, i))
            else:
                out.append((s2, self.dec(ety, arr[i], self.mkpath(
                    s2, "list", b, i))))
        return out

    def clamp(self, st, v, ln, default):
        if v is None or isinstance(v, NoneV):
            return default
        n = self.num(st, v)
        if n is None or n.ty != INT:
            raise Unsupported("slice bound %r" % (v,))
        i = n.t
        if self.entails(st, z3.And(0 <= i, i <= ln)):
            return i
        j = z3.If(i < 0, i + ln, i)
        return z3.If(j < 0, z3.IntVal(0), z3.If(j > ln, ln, j))

    def getslice(self, st, b, sl, e):
        k = self.kind_of(st, b)
        if sl.step is not None and const_int(sl.step) != 1:
            c = const_int(sl.step)
            if c == -1 and sl.lo is None and sl.hi is None:
                ety = self.seq_ty(st, b)
                arr, ln = self.as_arr(st, b)
                arr = rev_fn(ety)(arr, ln)
                return [(st, self.new_symlist(st, ety, arr, ln) if k == "list"
                         else SeqV(ety, arr, ln, k))]
            raise Unsupported("slice step")
        items = self.conc_items(st, b)
        if isinstance(b, PStr):
            items = list(b.s)
        if items is not None:
            lo = 0 if sl.lo is None else const_int(sl.lo)
            hi = len(items) if sl.hi is None or isinstance(sl.hi, NoneV) \
                else const_int(sl.hi)
            if lo is not None and hi is not None:
                r = items[lo:hi]
                if isinstance(b, PStr):
                    return [(st, PStr("".join(r)))]
                return [(st, Tupl(r) if k == "tuple" else self.new_list(st, r))]
        if isinstance(b, T) and b.ty == STR and sl.step is None:
            f = fun("strslice", STR.sort, z3.IntSort(), z3.IntSort(), STR.sort)
            end = lambda x, d: d if x is None or isinstance(x, NoneV) else self.enc(st, x, INT)
            return [(st, T(STR, f(b.t, end(sl.lo, z3.IntVal(0)), end(sl.hi, self.zlen(st, b)))))]
        if isinstance(b, T):
            raise Unsupported("slice of an opaque string")
        ety = self.seq_ty(st, b)
        if not self.known(ety):
            return [(st, self.new_list(st, []) if k == "list" else Tupl([]))]
        arr, ln = self.as_arr(st, b)
        lo = self.clamp(st, sl.lo, ln, z3.IntVal(0))
        hi = self.clamp(st, sl.hi, ln, ln)
        if self.entails(st, lo <= hi):
            n = hi - lo
        else:
            n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        lo = z3.simplify(lo)
        a2 = arr if z3.is_int_value(lo) and lo.as_long() == 0 else \
            slice_fn(ety)(arr, lo)
        n = z3.simplify(n)
        if k == "list":
            r = self.new_symlist(st, ety, a2, n)
            st.place(r).shared = self.mutable_ty(ety)
            return [(st, r)]
        return [(st, SeqV(ety, a2, n, k))]

    def dict_get(self, st, b, key, line):
        r = self.dictref(st, b)
        if r is not None and st.place(r).items is not None:
            p = st.place(r)
            ck = const_key(key)
            if ck is not None:
                if ck in p.items:
                    return [(st, p.items[ck])]
                return [(st, Exc("KeyError", key, line))]
            out = []
            cur = st
            for k, x in p.items.items():
                c = self.eq1(cur, key, key_val(k))
                a, cur2 = self.branch(cur, c)
                if a is not None:
                    out.append((a, x))
                if cur2 is None:
                    return out
                cur = cur2
            out.append((cur, Exc("KeyError", key, line)))
            return out
        if isinstance(b, DictV):
            kty, vty, dom, mp = b.kty, b.vty, b.dom, b.mp
        else:
            p = st.place(r)
            kty, vty, dom, mp = p.kty, p.vty, p.dom, p.mp
        kt = self.enc(st, key, kty)
        a, c = self.branch(st, dom[kt])
        out = []
        if a is not None:
            out.append((a, self.dec(vty, mp[kt], self.mkpath(a, "dict", b, kt))))
        if c is not None:
            out.append((c, Exc("KeyError", key, line)))
        return out

    # ----------------------------------------------------------- mutation
    def dict_set(self, st, ref, key, val):
        """d[key] = val on a dict place (in place, single state)"""
        p = st.place(ref)
        ck = const_key(key)
        if p.items is not None and ck is not None:
            q = st.mutate(ref)
            q.items[ck] = val
            return
        kt = self.type_of(st, key)
        vt = self.type_of(st, val)
        q = self.sym_dict(st, ref, kt, vt)
        q = st.mutate(ref)
        k = self.enc(st, key, q.kty)
        v = self.enc(st, val, q.vty)
        if q.order is not None:
            arr, ln = q.order
            q.order = (z3.If(q.dom[k], arr, z3.Store(arr, ln, k)),
                       z3.If(q.dom[k], ln, ln + 1))
        q.dom = z3.Store(q.dom, k, z3.BoolVal(True))
        q.mp = z3.Store(q.mp, k, v)
        if isinstance(val, Ref) and self.mutable_ty(q.vty):
            pass

    def set_add(self, st, ref, x):
        p = st.place(ref)
        if p.items is not None and const_key(x) is not None and all(
                const_key(y) is not None for y in p.items):
            q = st.mutate(ref)
            if const_key(x) not in [const_key(y) for y in q.items]:
                q.items.append(x)
            return
        q = self.sym_set(st, ref, self.type_of(st, x))
        q = st.mutate(ref)
        card_fn(q.ety)
        q.arr = z3.Store(q.arr, self.enc(st, x, q.ety), z3.BoolVal(True))

    def list_append(self, st, ref, x):
        p = st.place(ref)
        if p.items is not None:
            q = st.mutate(ref)
            q.items.append(x)
            return
        t = self.type_of(st, x)
        self.sym_list(st, ref, self.join(p.ety, t))
        q = st.mutate(ref, False)
        q.arr = z3.Store(q.arr, q.ln, self.enc(st, x, q.ety))
        q.ln = q.ln + 1

    def setitem(self, st, b, i, v, e):
        """b[i] = v; list of (state, None|Exc)"""
        line = e.line if e is not None else None
        if isinstance(b, ModelV):
            return b.model.setitem(self, st, b, i, v, e)
        if isinstance(b, Ref) and st.place(b).kind == "obj":
            p = st.place(b)
            if isinstance(i, SliceV) and i.step is None and not i.ext:
                m = self.find_method(p.cls, "__setslice__")
                if m is not None:
                    mi = self.ext("sys.maxint")
                    lo = i.lo if i.lo is not None else I(0)
                    hi = i.hi if i.hi is not None else mi
                    ln = self.zlen(st, b)
                    st.assume(ln <= mi.t)   # sys.maxint: no list is longer
                    fix = lambda x: T(INT, z3.If(x.t < 0, x.t + ln, x.t))
                    return [(s, r if isinstance(r, Exc) else None) for s, r in
                            self.call(st, Bound(b, m), [fix(lo), fix(hi), v], {}, e)]
            m = self.find_method(p.cls, "__setitem__")
            if m is not None:
                return [(s, r if isinstance(r, Exc) else None) for s, r in
                        self.call(st, Bound(b, m), [i, v], {}, e)]
            for f in ("__list__", "__dict__"):
                if f in p.fields:
                    return self.setitem(st, p.fields[f], i, v, e)
        kd = self.kind_of(st, b)
        if isinstance(b, (DictV, SeqV)):
            return self.path_set(st, b, i, v, e)
        if kd == "dict":
            self.dict_set(st, self.dictref(st, b), i, v)
            return [(st, None)]
        if kd == "list":
            ref = self.listref(st, b)
            if isinstance(i, SliceV):
                return self.set_slice(st, ref, i, v, e)
            n = self.num(st, i)
            p = st.place(ref)
            if p.items is not None:
                c = const_int(n)
                if c is not None:
                    if not -len(p.items) <= c < len(p.items):
                        return [(st, Exc("IndexError", None, line))]
                    q = st.mutate(ref)
                    q.items[c] = v
                    return [(st, None)]
            t = self.type_of(st, v)
            p = self.sym_list(st, ref, t)
            out = []
            for s2, j in self.index_cases(st, n, p.ln, line):
                if isinstance(j, Exc):
                    out.append((s2, j))
                    continue
                q = s2.mutate(ref)
                q.arr = z3.Store(q.arr, j, self.enc(s2, v, q.ety))
                out.append((s2, None))
            return out
        raise Unsupported("item assignment on %r" % (b,))

    def set_slice(self, st, ref, sl, v, e):
        if sl.step is not None:
            raise Unsupported("extended slice assignment")
        p = st.place(ref)
        if sl.lo is None and sl.hi is None:
            items = self.conc_items(st, v)
            q = st.mutate(ref)
            if items is not None:
                q.items, q.ety, q.arr, q.ln = list(items), None, None, None
            else:
                t = self.seq_ty(st, v)
                arr, ln = self.as_arr(st.copy(), v)
                q.items, q.ety, q.arr, q.ln = None, t, arr, ln
            return [(st, None)]
        t = self.join(self.seq_ty(st, ref), self.seq_ty(st, v))
        if not self.known(t):
            return [(st, None)]
        p = self.sym_list(st, ref, t)
        lo = self.clamp(st, sl.lo, p.ln, z3.IntVal(0))
        hi = self.clamp(st, sl.hi, p.ln, p.ln)
        hi = z3.If(hi < lo, lo, hi)
        va, vl = self.as_arr(st.copy(), v, t)
        q = st.mutate(ref)
        cf = concat_fn(t)
        q.arr = cf(cf(q.arr, lo, va), lo + vl, slice_fn(t)(p.arr, hi))
        q.ln = p.ln - (hi - lo) + vl
        return [(st, None)]

    def path_set(self, st, b, i, v, e):
        """assignment into a container that is itself an element of another
        container: functional update of the owner"""
        newb = None
        if isinstance(b, DictV):
            k = self.enc(st, i, b.kty)
            newv = self.enc(st, v, b.vty)
            nb = DictV(b.kty, b.vty, z3.Store(b.dom, k, z3.BoolVal(True)),
                       z3.Store(b.mp, k, newv), b.kind, b.path)
            self.write_back(st, b.path, nb)
            return [(st, None)]
        if isinstance(b, SeqV) and b.kind == "list":
            n = self.num(st, i)
            if n is None:
                raise Unsupported("slice assignment into a nested list")
            out = []
            for s2, j in self.index_cases(st, n, b.ln, e.line if e else None):
                if isinstance(j, Exc):
                    out.append((s2, j))
                    continue
                nb = SeqV(b.ety, z3.Store(b.arr, j, self.enc(s2, v, b.ety)),
                          b.ln, b.kind, b.path)
                self.write_back(s2, b.path, nb)
                out.append((s2, None))
            return out
        raise Unsupported("item assignment into a nested sequence")

    def mkpath(self, st, kind, owner, idx):
        """where a nested container was read from (for writing through it)"""
        if isinstance(owner, Ref):
            r = self.dictref(st, owner) if kind == "dict" else self.listref(st, owner)
            if r is None:
                return None
            return (kind, r, idx, st.ver[r.pid], st.place(r).slotver)
        return (kind, owner, idx, None, None)

    def refresh(self, st, v):
        """current contents of a nested container held in a variable"""
        path = getattr(v, "path", None)
        if path is None or not isinstance(v, (SeqV, DictV, SetV)):
            return v
        kind, owner, idx, ver, sv = path
        if isinstance(owner, Ref):
            if st.ver[owner.pid] is ver:
                return v
            p = st.place(owner)
            if p.slotver is not sv or p.items is not None:
                raise Unsupported("nested container may have been replaced")
            if kind == "dict":
                return self.dec(p.vty, p.mp[idx], self.mkpath(st, kind, owner, idx))
            return self.dec(p.ety, p.arr[idx], self.mkpath(st, kind, owner, idx))
        o2 = self.refresh(st, owner)
        if o2 is owner:
            return v
        if isinstance(o2, DictV):
            return self.dec(o2.vty, o2.mp[idx], self.mkpath(st, kind, o2, idx))
        if isinstance(o2, SeqV):
            return self.dec(o2.ety, o2.arr[idx], self.mkpath(st, kind, o2, idx))
        raise Unsupported("nested container")

    def write_back(self, st, path, newval):
        if path is None:
            raise Unsupported("mutation of a value of unknown origin")
        kind, owner, idx = path[:3]
        if isinstance(owner, Ref):
            p = st.place(owner)
            if p.shared:
                raise Unsupported("mutation of a possibly shared element")
            if kind == "dict":
                r = self.dictref(st, owner)
                q = st.mutate(r, False)
                q.mp = z3.Store(q.mp, idx, self.enc(st, newval, q.vty))
                return
            if kind == "list":
                r = self.listref(st, owner)
                q = st.mutate(r, False)
                q.arr = z3.Store(q.arr, idx, self.enc(st, newval, q.ety))
                return
        if isinstance(owner, DictV):
            nb = DictV(owner.kty, owner.vty, owner.dom,
                       z3.Store(owner.mp, idx, self.enc(st, newval, owner.vty)),
                       owner.kind, owner.path)
            return self.write_back(st, owner.path, nb)
        if isinstance(owner, SeqV):
            nb = SeqV(owner.ety, z3.Store(owner.arr, idx, self.enc(
                st, newval, owner.ety)), owner.ln, owner.kind, owner.path)
            return self.write_back(st, owner.path, nb)
        raise Unsupported("mutation through %r" % (owner,))
