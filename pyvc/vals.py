"""Types, symbolic values, heap places and states of the verifier."""
import itertools
import z3


class Unsupported(Exception):
    """the code left the subset the verifier handles"""


_sorts = {}
_cnt = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_cnt))


class Ty(object):
    def __init__(self, k, *args):
        self.k = k
        self.args = args
        self.key = k if not args else "%s<%s>" % (
            k, ",".join(a.key if isinstance(a, Ty) else str(a) for a in args))

    def __eq__(self, o):
        return isinstance(o, Ty) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    @property
    def sort(self):
        s = _sorts.get(self.key)
        if s is None:
            s = _sorts[self.key] = self._mk()
        return s if not isinstance(s, tuple) else s[0]

    def _dt(self):
        self.sort
        return _sorts[self.key]

    def _mk(self):
        k = self.k
        if k == "int":
            return z3.IntSort()
        if k == "real":
            return z3.RealSort()
        if k == "bool":
            return z3.BoolSort()
        if k == "op":
            return z3.DeclareSort(self.args[0])
        if k == "ref":
            return z3.IntSort()
        if k == "arr":      # ghost state of models
            return z3.ArraySort(self.args[0].sort, self.args[1].sort)
        if k == "tup":
            d = z3.Datatype("T%d_%s" % (len(self.args), self.key))
            d.declare("mk_" + self.key, *[("f%d_%s" % (i, self.key), a.sort)
                                          for i, a in enumerate(self.args)])
            s = d.create()
            return (s, s.constructor(0),
                    [s.accessor(0, i) for i in range(len(self.args))])
        if k == "seq":
            d = z3.Datatype(self.key)
            d.declare("mk_" + self.key,
                      ("arr_" + self.key, z3.ArraySort(z3.IntSort(), self.args[0].sort)),
                      ("len_" + self.key, z3.IntSort()))
            s = d.create()
            return (s, s.constructor(0), [s.accessor(0, 0), s.accessor(0, 1)])
        if k == "dict":
            kt, vt = self.args[0], self.args[1]
            d = z3.Datatype(self.key)
            d.declare("mk_" + self.key,
                      ("dom_" + self.key, z3.ArraySort(kt.sort, z3.BoolSort())),
                      ("map_" + self.key, z3.ArraySort(kt.sort, vt.sort)))
            s = d.create()
            return (s, s.constructor(0), [s.accessor(0, 0), s.accessor(0, 1)])
        if k == "set":
            return z3.ArraySort(self.args[0].sort, z3.BoolSort())
        if k == "opt":
            d = z3.Datatype(self.key)
            d.declare("none_" + self.key)
            d.declare("some_" + self.key, ("val_" + self.key, self.args[0].sort))
            s = d.create()
            return (s, s.constructor(1), [s.accessor(1, 0)], s.constructor(0),
                    s.recognizer(0))
        raise Unsupported("sort " + self.key)

    def mk(self, *ts):
        return self._dt()[1](*ts)

    def get(self, i, t):
        c = self._dt()[1]
        if z3.is_app(t) and t.decl().eq(c):
            return t.arg(i)
        return self._dt()[2][i](t)

    def fresh(self, p):
        return z3.Const(fresh_name(p), self.sort)


INT, REAL, BOOL = Ty("int"), Ty("real"), Ty("bool")
STR = Ty("op", "Str")
ELEM = Ty("op", "Elem")


def OP(n):
    return Ty("op", n)


def TUP(*a):
    return Ty("tup", *a)


def SEQ(t, kind="list"):
    return Ty("seq", t, kind)


def DICT(k, v, kind="dict"):
    return Ty("dict", k, v, kind)


def SET(t):
    return Ty("set", t)


def OPT(t):
    return t if t.k == "opt" else Ty("opt", t)


def REFTY(cls):
    return Ty("ref", cls)


# ---------------------------------------------------------------- literals
_lits = {}


def lit(s):
    """constant of sort Str for a Python string literal"""
    c = _lits.get(s)
    if c is None:
        c = _lits[s] = z3.Const("lit_%d_%s" % (len(_lits), s[:12].encode(
            "ascii", "replace").decode()), STR.sort)
    return c


def lit_axioms():
    cs = list(_lits.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


def lit_of(term):
    for s, c in _lits.items():
        if c.eq(term):
            return s
    return None


# ---------------------------------------------------------------- values
class Val(object):
    pass


class T(Val):
    """term value"""
    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return "T(%s,%s)" % (self.ty, self.t)


class PStr(Val):
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "PStr(%r)" % self.s


class NoneV(Val):
    def __repr__(self):
        return "None"


NONE = NoneV()


class Tupl(Val):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tupl(%s)" % self.items


class SeqV(Val):
    """immutable symbolic sequence; kind list (snapshot), tuple or str"""
    def __init__(self, ety, arr, ln, kind="list", path=None):
        self.ety = ety
        self.arr = arr
        self.ln = ln
        self.kind = kind
        self.path = path

    def __repr__(self):
        return "SeqV(%s,%s,%s)" % (self.ety, self.arr, self.ln)


class DictV(Val):
    """dictionary value loaded out of another container (snapshot, with the
    path it came from so that mutation through it can be written back)"""
    def __init__(self, kty, vty, dom, mp, kind="dict", path=None):
        self.kty, self.vty, self.dom, self.mp, self.kind = kty, vty, dom, mp, kind
        self.path = path


class SetV(Val):
    def __init__(self, ety, arr, path=None):
        self.ety, self.arr, self.path = ety, arr, path


class Ref(Val):
    def __init__(self, pid):
        self.pid = pid

    def __repr__(self):
        return "Ref(%s)" % self.pid


class Fn(Val):
    """python function of the program; env = captured closure"""
    def __init__(self, info, env=None):
        self.info = info
        self.env = env

    def __repr__(self):
        return "Fn(%s)" % self.info.name


class UFn(Val):
    """uninterpreted, pure function parameter"""
    def __init__(self, name, apply):
        self.name = name
        self.apply = apply


class Builtin(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Builtin(%s)" % self.name


class Cls(Val):
    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "Cls(%s)" % self.info


class ExtCls(Val):
    """class that is known by name only (exceptions, builtin types)"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "ExtCls(%s)" % self.name


class Mod(Val):
    def __init__(self, name):
        self.name = name


class Bound(Val):
    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn


class Method(Val):
    """builtin method `name` of value `base` (base given with the path it
    was read from, for writing back)"""
    def __init__(self, base, name):
        self.base = base
        self.name = name


class SliceV(Val):
    def __init__(self, lo, hi, step, ext=False):
        self.lo, self.hi, self.step, self.ext = lo, hi, step, ext   # ext: written as a:b:


class IterV(Val):
    """iterator over a sequence value with a position (one-shot)"""
    def __init__(self, it):
        self.it = it


class ModelV(Val):
    """value of a trusted model class supplied by a contract"""
    def __init__(self, model, **kw):
        self.model = model
        self.__dict__.update(kw)


class Undef(Val):
    def __init__(self, why):
        self.why = why


class Exc(object):
    """exceptional outcome"""
    def __init__(self, cls, val=None, line=None):
        self.cls = cls
        self.val = val
        self.line = line

    def __repr__(self):
        return "Exc(%s@%s)" % (self.cls, self.line)


# ---------------------------------------------------------------- places
class ListP(object):
    slotver = None
    """mutable list: concrete (items) or symbolic (ety, arr, ln)"""
    kind = "list"

    def __init__(self, items=None, ety=None, arr=None, ln=None):
        self.items = items
        self.ety, self.arr, self.ln = ety, arr, ln
        self.shared = False     # elements may be aliased from elsewhere
        self.escaped = False    # stored in another container
        self.gen = False

    def copy(self):
        p = ListP.__new__(ListP)
        p.__dict__.update(self.__dict__)
        if self.items is not None:
            p.items = list(self.items)
        return p


class DictP(object):
    slotver = None
    kind = "dict"

    def __init__(self, items=None, kty=None, vty=None, dom=None, mp=None,
                 order=None, dkind="dict", default=None):
        self.items = items          # ordered python dict: key -> Val
        self.kty, self.vty, self.dom, self.mp = kty, vty, dom, mp
        self.order = order          # (arr, ln) for OrderedDicts, sym mode
        self.dkind = dkind
        self.shared = False
        self.escaped = False

    def copy(self):
        p = DictP.__new__(DictP)
        p.__dict__.update(self.__dict__)
        if self.items is not None:
            p.items = dict(self.items)
        return p


class SetP(object):
    kind = "set"
    slotver = None

    def __init__(self, items=None, ety=None, arr=None):
        self.items = items
        self.ety, self.arr = ety, arr
        self.escaped = False
        self.shared = False

    def copy(self):
        p = SetP.__new__(SetP)
        p.__dict__.update(self.__dict__)
        if self.items is not None:
            p.items = list(self.items)
        return p


class ObjP(object):
    slotver = None
    kind = "obj"

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self.escaped = False
        self.shared = False

    def copy(self):
        p = ObjP.__new__(ObjP)
        p.__dict__.update(self.__dict__)
        p.fields = dict(self.fields)
        return p


class State(object):
    _pid = itertools.count(1)

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.ver = {}      # pid -> version object, changed by each mutation
        self.pc = []
        self.ghost = {}    # contract-managed ghost state: name -> z3 term

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.ver = dict(self.ver)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, f):
        if f is True:
            return self
        if f is False:
            f = z3.BoolVal(False)
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return self
        if not z3.is_true(f):
            self.pc.append(f)
        return self

    def alloc(self, place):
        pid = next(State._pid)
        self.heap[pid] = place
        self.ver[pid] = object()
        return Ref(pid)

    def place(self, ref):
        return self.heap[ref.pid]

    def mutate(self, ref, slots=True):
        """a private copy of the place, recorded as modified"""
        p = self.heap[ref.pid]
        if p.escaped:
            raise Unsupported("mutation of a container stored elsewhere")
        p = p.copy()
        self.heap[ref.pid] = p
        self.ver[ref.pid] = object()
        if slots:
            p.slotver = object()
        return p
