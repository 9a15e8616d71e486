"""Attribute access, calls, built-ins and comprehensions."""
import os
import z3

from .vals import *
from . import vals
from .src import Node, FuncInfo, ClassInfo, walk
from .engine import *
from .engine import (arr_sort, slice_fn, concat_fn, rev_fn, insert_fn,
                     delete_fn, const_arr, range_arr, sum_fn, elems_fn,
                     card_fn, inter_fn, union_fn, diff_fn, enum_fn, fun,
                     SQRT, LOG, sqrt_ax, log_ax, empty_arr, TH)


LIST_RAW = ("__add__", "__iadd__", "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__")


class ExcV(Val):
    """instance of an exception class"""
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = list(args)


class Super(Val):
    def __init__(self, self_, cls):
        self.self_ = self_
        self.cls = cls


def N(kind, line=None, **f):
    return Node(kind, line, f)


def sorted_fn(ety, order):
    """stable-agnostic sort: an ordered array with the same members"""
    A = arr_sort(ety)
    f = fun("sorted_" + ety.key, A, z3.IntSort(), A)
    p = fun("sortperm_" + ety.key, A, z3.IntSort(), z3.IntSort(), z3.IntSort())
    q = fun("sortpinv_" + ety.key, A, z3.IntSort(), z3.IntSort(), z3.IntSort())

    def mk():
        a = z3.Const("a", A)
        n, i, j = z3.Ints("n i j")
        return [
            forall([a, n, i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                0 <= p(a, n, i), p(a, n, i) < n, q(a, n, p(a, n, i)) == i,
                f(a, n)[i] == a[p(a, n, i)])), [f(a, n)[i]]),
            forall([a, n, i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                0 <= q(a, n, i), q(a, n, i) < n, p(a, n, q(a, n, i)) == i,
                f(a, n)[q(a, n, i)] == a[i])),
                [z3.MultiPattern(f(a, n), a[i])]),
            forall([a, n, i, j], z3.Implies(
                z3.And(0 <= i, i < j, j < n), z3.Not(order(f(a, n)[j], f(a, n)[i]))),
                [z3.MultiPattern(f(a, n)[i], f(a, n)[j])])]
    TH.add("sorted_" + ety.key, mk)
    return f


class Calls(object):
    MAXDEPTH = 14

    # --------------------------------------------------------- attributes
    def ev_Attribute(self, st, e):
        return self.bind(self.ev(st, e.value),
                         lambda s, v: self.getattr_(s, v, e.attr, e))

    def getattr_(self, st, v, name, e=None):
        line = e.line if e is not None else None
        if isinstance(v, Mod):
            return self.mod_attr(st, v.name, name, line)
        if isinstance(v, T):
            if v.ty.k == "opt":
                return self.unopt(st, v, lambda s, x: self.getattr_(s, x, name, e), e)
            h = self.models.get("attr:" + v.ty.key)
            if h is not None:
                return h(self, st, v, name, e)
            if v.ty.k == "op" and name == "__class__":
                return [(st, ExtCls(v.ty.args[0]))]
            if v.ty == STR:
                return [(st, Method(v, name))]
            if v.ty.k in ("int", "real", "bool"):
                return [(st, Method(v, name))]
        if isinstance(v, ModelV):
            if not hasattr(v.model, "getattr"):
                return [(st, Method(v, name))]
            return v.model.getattr(self, st, v, name, e)
        if isinstance(v, NoneV):
            return [(st, Exc("AttributeError", PStr(name), line))]
        if isinstance(v, Super):
            m = self.find_method(self.class_of(st, v.self_), name, v.cls)
            if m is not None:
                return [(st, Bound(v.self_, m))]
            return self.base_method(st, v.self_, name, e)
        if isinstance(v, Cls):
            if name == "__name__":
                return [(st, PStr(v.info.name))]
            m = self.find_method(v.info, name)
            if m is not None:
                if isinstance(m, Fn) and "classmethod" in m.info.decos:
                    return [(st, Bound(v, m))]
                return [(st, m)]
            for c in self.mro(v.info):
                if isinstance(c, ClassInfo):
                    if name in c.attrs:
                        return self.class_attr(st, c, name)
                elif c in ("list", "dict", "set", "object", "int", "str"):
                    return [(st, Builtin("%s.%s" % (c, name)))]
            return [(st, Exc("AttributeError", PStr(name), line))]
        if isinstance(v, (ExtCls, Builtin)):
            if name == "__name__":
                return [(st, PStr(v.name))]
            return [(st, self.ext("%s.%s" % (v.name, name)))]
        if isinstance(v, ExcV):
            if name == "args":
                return [(st, Tupl(v.args))]
            if name == "message":
                return [(st, v.args[0] if v.args else PStr(""))]
        if isinstance(v, Ref) and st.place(v).kind == "obj":
            return self.obj_attr(st, v, name, e)
        if isinstance(v, Tupl) and "attr:tuple" in self.models:
            r = self.models["attr:tuple"](self, st, v, name, e)
            if r is not None:
                return r
        if name == "__class__":
            return self.bi_type(st, [v], {}, e)
        if isinstance(v, (Ref, SeqV, DictV, SetV, PStr, Tupl, IterV)):
            return [(st, Method(v, name))]
        if isinstance(v, Fn) and name in ("__name__", "func_name"):
            if getattr(v, "renamed", False):
                raise Unsupported("name of a renamed function")
            return [(st, PStr(v.info.name))]
        if isinstance(v, Fn) and name in ("im_func", "__func__"):
            return [(st, v)]
        if isinstance(v, Bound) and name in ("im_func", "__func__"):
            return [(st, v.fn)]
        if isinstance(v, Bound) and name in ("im_self", "__self__"):
            return [(st, v.self_)]
        raise Unsupported("attribute %s of %r" % (name, v))

    def class_of(self, st, v):
        return st.place(v).cls

    def class_attr(self, st, c, name):
        r = self.ev(self._attr_state(st, c), c.attrs[name])
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Unsupported("class attribute " + name)
        s2, v = r[0]
        st.heap, st.ver = s2.heap, s2.ver
        if isinstance(v, Ref):
            p = st.heap[v.pid].copy()
            p.escaped = True
            st.heap[v.pid] = p
        return [(st, v)]

    def _attr_state(self, st, c):
        s = State()
        s.env = {"__module__": c.mod}
        for n, m in c.methods.items():
            s.env[n] = Fn(m)
        s.heap, s.ver = st.heap, st.ver
        return s

    def mod_attr(self, st, mod, name, line):
        full = "%s.%s" % (mod, name)
        if full in self.models:
            return [(st, self.model_value(full))]
        if mod.split(".")[0] == "daeso" or mod in self.prog.mods:
            m = self.prog.get(mod)
            if m is not None:
                v = self.global_name(st, name, m)
                if v is not None:
                    return [(st, v)]
                if self.prog.get(full) is not None:
                    return [(st, Mod(full))]
                return [(st, Exc("AttributeError", PStr(name), line))]
            if self.prog.get(full) is not None:
                return [(st, Mod(full))]
        if mod == "os" and name == "path":
            return [(st, Mod("os.path"))]
        return [(st, self.ext(full))]

    def obj_attr(self, st, v, name, e):
        p = st.place(v)
        line = e.line if e is not None else None
        if name in p.fields:
            f = p.fields[name]
            if isinstance(f, Undef):
                raise Unsupported("field %s: %s" % (name, f.why))
            return [(st, f)]
        if name == "__class__":
            return [(st, Cls(p.cls))]
        if name == "__dict__" and "__dict__" not in p.fields:
            return [(st, ModelV(FieldsOf(), ref=v))]
        m = self.find_method(p.cls, name)
        if m is not None:
            if isinstance(m, Fn):
                if "property" in m.info.decos:
                    return self.call(st, Bound(v, m), [], {}, e)
                if "staticmethod" in m.info.decos:
                    return [(st, m)]
                if "classmethod" in m.info.decos:
                    return [(st, Bound(Cls(p.cls), m))]
            return [(st, Bound(v, m))]
        for c in self.mro(p.cls):
            if isinstance(c, ClassInfo) and name in c.attrs:
                a = c.attrs[name]
                if a.kind == "Call" and a.func.kind == "Name" and \
                        a.func.id == "property":
                    g = a.args[0]
                    if g.kind == "Name" and g.id in c.methods:
                        return self.call(st, Bound(v, Fn(c.methods[g.id])), [], {}, e)
                    if g.kind == "Lambda":
                        return self.call(st, Fn(FuncInfo(c.mod, g)), [v], {}, e)
                    raise Unsupported("property")
                r = self.class_attr(st, c, name)
                x = r[0][1]
                if isinstance(x, Fn) and x.info.cls is None and False:
                    return [(st, Bound(v, x))]
                return r
        m = self.find_method(p.cls, "__getattr__")
        if m is not None:
            return self.call(st, Bound(v, m), [PStr(name)], {}, e)
        for f in ("__list__", "__dict__"):
            if f in p.fields:
                return [(st, Method(p.fields[f], name))]
        if any(c in ("?",) or (not isinstance(c, ClassInfo) and c not in (
                "object", "Exception")) for c in self.mro(p.cls)):
            raise Unsupported("attribute %s of %s" % (name, p.cls))
        return [(st, Exc("AttributeError", PStr(name), line))]

    def base_method(self, st, v, name, e):
        p = st.place(v)
        for f in ("__list__", "__dict__"):
            if f in p.fields:
                return [(st, Method(p.fields[f], name))]
        if name == "__init__":
            return [(st, Builtin("noop"))]
        raise Unsupported("super attribute " + name)

    # -------------------------------------------------------------- calls
    def ev_Call(self, st, e):
        out = []
        # type(self)(...) / super(C, self)
        if e.func.kind == "Name" and e.func.id == "super" and len(e.args) == 2:
            return self.bind(self.evs(st, e.args), lambda s, vs: [
                (s, Super(vs[1], vs[0].info))])
        if e.func.kind == "Name" and e.func.id in ("locals", "globals", "eval",
                                                   "exec", "vars"):
            raise Unsupported(e.func.id)
        if e.func.kind == "Name" and e.func.id == "hasattr" and \
                self.lookup(st, "hasattr", st.env.get("__module__")).name == "hasattr":
            return self.bind(self.evs(st, e.args), lambda s, vs: self.hasattr_(s, vs[0], vs[1]))
        kws = [k.value for k in (e.keywords or [])]
        extra = []
        if e.starargs is not None:
            extra.append(e.starargs)
        if e.kwargs is not None:
            extra.append(e.kwargs)
        for s, vs in self.evs(st, [e.func] + list(e.args) + kws + extra):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            f = vs[0]
            n = len(e.args)
            args = list(vs[1:1 + n])
            kw = {}
            for k, v in zip(e.keywords or [], vs[1 + n:1 + n + len(kws)]):
                kw[k.arg] = v
            ex = list(vs[1 + n + len(kws):])
            if e.starargs is not None:
                sv = ex.pop(0)
                items = self.conc_items(s, sv)
                if items is None:
                    raise Unsupported("star argument of unknown length")
                args.extend(items)
            if e.kwargs is not None:
                kv = ex.pop(0)
                if isinstance(getattr(kv, "model", None), FieldsOf):
                    kw.update((k, x) for k, x in s.place(kv.ref).fields.items() if k.isidentifier() and not k.startswith("__"))
                    out.extend(self.call(s, f, args, kw, e))
                    continue
                r = self.dictref(s, kv)
                if r is None or s.place(r).items is None:
                    raise Unsupported("double star argument")
                for k, v in s.place(r).items.items():
                    kw[k[1]] = v
            out.extend(self.call(s, f, args, kw, e))
        return out

    def hasattr_(self, st, v, name):
        if not isinstance(name, PStr):
            raise Unsupported("hasattr")
        if isinstance(v, (T, SeqV, PStr, Tupl)):
            kind = self.kind_of(st, v)
            py = {"str": str, "list": list, "tuple": tuple, "num": int}.get(kind)
            if py is None:
                raise Unsupported("hasattr")
            return [(st, B(hasattr(py, name.s) or (kind == "str" and
                                                   name.s == "decode")))]
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "list":
                return [(st, B(hasattr(list, name.s)))]
            if p.kind == "dict":
                return [(st, B(hasattr(dict, name.s) or name.s in (
                    "has_key", "iterkeys", "iteritems")))]
        out = []
        for s, r in self.getattr_(st, v, name.s, None):
            if isinstance(r, Exc):
                if r.cls != "AttributeError":
                    out.append((s, r))
                else:
                    out.append((s, B(False)))
            else:
                out.append((s, B(True)))
        return out

    def call(self, st, f, args, kw, e):
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, e)
        if isinstance(f, Bound):
            if isinstance(f.fn, Builtin):
                return self.call(st, f.fn, [f.self_] + list(args), kw, e)
            return self.call_fn(st, f.fn, [f.self_] + list(args), kw, e)
        if isinstance(f, Builtin):
            if f.name.startswith("model:"):
                nm = f.name[6:]
                h = self.models.get(nm) or self.method_models.get(nm)
                self.assumed.add(nm)
                return h(self, st, args, kw, e)
            return self.call_builtin(st, f.name, args, kw, e)
        if isinstance(f, UFn):
            return f.apply(self, st, args)
        if isinstance(f, Method):
            return self.call_method(st, f.base, f.name, args, kw, e)
        if isinstance(f, Cls):
            return self.instantiate(st, f.info, args, kw, e)
        if isinstance(f, ExtCls):
            if f.name in EXC_BASES:
                return [(st, ExcV(f.name, args))]
            return self.call_builtin(st, f.name, args, kw, e)
        if isinstance(f, ModelV) and hasattr(f.model, "call"):
            return f.model.call(self, st, f, args, kw, e)
        if isinstance(f, Ref) and st.place(f).kind == "obj":
            m = self.find_method(st.place(f).cls, "__call__")
            if m is not None:
                return self.call(st, Bound(f, m), args, kw, e)
        if isinstance(f, T) and f.ty.k == "op":
            h = self.models.get("call:" + f.ty.key)
            if h is not None:
                return h(self, st, f, args, kw, e)
        if isinstance(f, (NoneV, PStr, Tupl, SeqV, T)):
            return [(st, Exc("TypeError", None, e.line if e is not None else None))]
        raise Unsupported("call of %r" % (f,))

    def is_exc_class(self, info):
        return any((not isinstance(c, ClassInfo)) and c in EXC_BASES
                   for c in self.mro(info))

    def instantiate(self, st, info, args, kw, e):
        key = "new:%s.%s" % (info.mod.name, info.name)
        if key in self.models:
            return self.models[key](self, st, args, kw, e)
        if self.is_exc_class(info):
            EXC_BASES.setdefault(info.name, self.exc_base(info))
            return [(st, ExcV(info.name, args))]
        mro = self.mro(info)
        fields = {}
        if "list" in mro:
            fields["__list__"] = self.new_list(st, [])
        if "dict" in mro:
            fields["__dict__"] = st.alloc(DictP(items={}))
        r = st.alloc(ObjP(info, fields))
        if self.find_method(info, "__new__") is not None:
            raise Unsupported("__new__")
        m = self.find_method(info, "__init__")
        if m is None:
            if "__list__" in fields:
                return [(s, x if isinstance(x, Exc) else r) for s, x in
                        self.call_method(st, fields["__list__"], "__init__", args, kw, e)]
            if "__dict__" in fields:
                return [(s, x if isinstance(x, Exc) else r) for s, x in
                        self.call_method(st, fields["__dict__"], "__init__", args, kw, e)]
            if args or kw:
                if all(isinstance(c, ClassInfo) or c == "object" for c in mro):
                    return [(st, Exc("TypeError", None, e.line if e else None))]
                raise Unsupported("constructor of %s" % info)
            return [(st, r)]
        return [(s, x if isinstance(x, Exc) else r) for s, x in
                self.call(st, Bound(r, m), args, kw, e)]

    def exc_base(self, info):
        for c in self.mro(info)[1:]:
            n = c if not isinstance(c, ClassInfo) else c.name
            if isinstance(c, ClassInfo):
                EXC_BASES.setdefault(n, self.exc_base(c))
            return n
        return "Exception"

    def bind_args(self, st, info, args, kw, line=None):
        """env for a call, or Exc"""
        a = info.node.args
        params = a.args
        env = {}
        kw = dict(kw)
        vals_ = list(args)
        nd = len(a.defaults)
        np_ = len(params)
        if len(vals_) > np_ and not a.vararg:
            return Exc("TypeError", PStr("argument count"), line)
        for i, p in enumerate(params):
            if i < len(vals_):
                v = vals_[i]
                if p.kind == "Name" and p.id in kw:
                    return Exc("TypeError", PStr("duplicate argument"), line)
            elif p.kind == "Name" and p.id in kw:
                v = kw.pop(p.id)
            elif i >= np_ - nd:
                d = a.defaults[i - (np_ - nd)]
                if d.kind == "Name" and info.cls is not None and \
                        d.id in info.cls.attrs:
                    v = self.class_attr(st, info.cls, d.id)[0][1]
                else:
                    s2 = self._mod_state(info.mod)
                    s2.heap, s2.ver = st.heap, st.ver
                    r = self.ev(s2, d)
                    if len(r) != 1 or isinstance(r[0][1], Exc):
                        raise Unsupported("default argument")
                    v = r[0][1]
                    st.heap, st.ver = r[0][0].heap, r[0][0].ver
                    if isinstance(v, Ref) and st.place(v).kind != "obj":
                        q = st.place(v).copy()
                        q.escaped = True
                        st.heap[v.pid] = q
            else:
                return Exc("TypeError", PStr("missing argument"), line)
            if p.kind == "Name":
                env[p.id] = v
            else:
                # tuple parameter
                items = v.items if isinstance(v, Tupl) else self.conc_items(st, v)
                if items is None or len(items) != len(p.elts):
                    raise Unsupported("tuple parameter")
                for q, x in zip(p.elts, items):
                    if q.kind != "Name":
                        raise Unsupported("nested tuple parameter")
                    env[q.id] = x
        if a.vararg:
            env[a.vararg] = Tupl(vals_[np_:])
        if a.kwarg:
            env[a.kwarg] = st.alloc(DictP(items={("s", k): v for k, v in kw.items()}))
        elif kw:
            return Exc("TypeError", PStr("unexpected keyword"), line)
        return env

    def call_fn(self, st, f, args, kw, e):
        info = f.info
        line = e.line if e is not None else None
        env = self.bind_args(st, info, args, kw, line)
        if isinstance(env, Exc):
            return [(st, env)]
        if "contextmanager" in info.decos or any(d not in (
                "property", "staticmethod", "classmethod") for d in info.decos):
            if not any(d == "setter" for d in info.decos):
                raise Unsupported("decorated function " + info.qual)
        if f.env is None and "fn:" + info.qual in self.models:
            # assumed by the contract (see its docstring and contracts/trust.py)
            return self.models["fn:" + info.qual](self, st, env, e)
        c = self.contracts.get(info.qual)
        if c is not None and f.env is None:
            r = c.apply(self, st, env, e)
            if r is not None:
                self.used_contracts.add(info.qual)
                return r
        if any(i is info for i in self.call_stack):
            raise Unsupported("recursive call of %s without a contract" % info.qual)
        if len(self.call_stack) >= self.MAXDEPTH:
            raise Unsupported("call depth")
        self.inlined.add(info.qual)
        return self.run_fn(st, info, env, f.env)

    def run_fn(self, st, info, env, closure=None):
        """execute a function body; [(state, Val|Exc)] in the caller's frame"""
        saved = st.env
        s = st.copy()
        s.env = dict(env)
        s.env["__module__"] = info.mod
        s.env["__function__"] = info
        s.env["__frame__"] = object()
        if closure is not None:
            # the defining frame's current variables, while it is active
            fid = closure.get("__frame__")
            if fid is not None:
                for fe in [saved] + self.frames[::-1]:
                    if fe.get("__frame__") is fid:
                        closure = fe
                        break
            s.env["__closure__"] = closure
        if info.is_gen:
            s.env["__yield__"] = self.new_list(s, [])
        self.call_stack.append(info)
        self.frames.append(saved)
        saved_loops, self.loop_stack = self.loop_stack, list(self.loop_stack)
        try:
            if isinstance(info.node.body, list):
                outs = self.block(s, info.node.body)
            else:
                outs = [(s2, ("x", v) if isinstance(v, Exc) else ("r", v))
                        for s2, v in self.ev(s, info.node.body)]
        finally:
            self.call_stack.pop()
            self.frames.pop()
            self.loop_stack = saved_loops
        res = []
        for s2, o in outs:
            y = s2.env.get("__yield__")
            if not self.call_stack:
                s2.exit_env = s2.env        # witnesses for postconditions
            s2.env = dict(saved)
            if o[0] == "x":
                res.append((s2, o[1]))
            elif info.is_gen:
                p = s2.place(y).copy()
                p.gen = True
                s2.heap[y.pid] = p
                res.append((s2, y))
            elif o[0] == "r":
                res.append((s2, o[1]))
            elif o[0] == "n":
                res.append((s2, NONE))
            else:
                raise Unsupported("break outside loop")
        return res

    def ev_Lambda(self, st, e):
        info = FuncInfo(st.env.get("__module__"), e)
        return [(st, Fn(info, self.closure_of(st)))]

    def closure_of(self, st):
        return st.env

    def ev_Yield(self, st, e):
        def f(s, v):
            self.list_append(s, s.env["__yield__"], v)
            return [(s, NONE)]
        if e.value is None:
            return f(st, NONE)
        return self.bind(self.ev(st, e.value), f)

    def ev_Repr(self, st, e):
        return self.bind(self.ev(st, e.value),
                         lambda s, v: self.call_builtin(s, "repr", [v], {}, e))

    # ------------------------------------------------------ comprehensions
    def ev_ListComp(self, st, e, leak=True):
        return self.comp(st, e, e.elt, "list", leak)

    def ev_GeneratorExp(self, st, e):
        return self.comp(st, e, e.elt, "list", False)

    def ev_SetComp(self, st, e):
        return self.comp(st, e, e.elt, "set", False)

    def ev_DictComp(self, st, e):
        return self.comp(st, e, (e.key, e.value), "dict", False)

    def comp_vars(self, gens):
        out = []
        for g in gens:
            for n in walk(g.target):
                if n.kind == "Name":
                    out.append(n.id)
        return out

    def comp(self, st, e, elt, kind, leak):
        gens = e.generators
        if kind == "list" and len(gens) == 1:
            r = (self.comp_filter if gens[0].ifs else self.comp_closed)(st, e, elt, leak)
            if r is not None:
                return r
        names = self.comp_vars(gens)
        saved = {n: st.env[n] for n in names if n in st.env}
        s = st.copy()
        res = "__comp%d_%s" % (e.line or 0, fresh_name("c"))
        if kind == "list":
            s.env[res] = self.new_list(s, [])
            inner = N("Expr", e.line, value=N("Call", e.line, func=N(
                "Attribute", e.line, value=N("Name", e.line, id=res), attr="append"),
                args=[elt], keywords=[], starargs=None, kwargs=None))
        elif kind == "set":
            s.env[res] = s.alloc(SetP(items=[]))
            inner = N("Expr", e.line, value=N("Call", e.line, func=N(
                "Attribute", e.line, value=N("Name", e.line, id=res), attr="add"),
                args=[elt], keywords=[], starargs=None, kwargs=None))
        else:
            s.env[res] = s.alloc(DictP(items={}))
            inner = N("Assign", e.line, targets=[N("Subscript", e.line, value=N(
                "Name", e.line, id=res), slice=N("Index", e.line, value=elt[0]))],
                value=elt[1])
        body = [inner]
        for g in reversed(gens):
            for c in reversed(g.ifs):
                body = [N("If", e.line, test=c, body=body, orelse=[])]
            body = [N("For", e.line, target=g.target, iter=g.iter, body=body,
                      orelse=[], comp=res)]
        # generator-expression scoping is approximated by restoring variables
        out = []
        for s2, o in self.block(s, body):
            if o[0] == "x":
                v = o[1]
            elif o[0] == "n":
                v = s2.env[res]
            else:
                raise Unsupported("comprehension")
            s2.env.pop(res, None)
            for n in names:
                if leak:
                    continue
                s2.env.pop(n, None)
                if n in saved:
                    s2.env[n] = saved[n]
            out.append((s2, v))
        return out

    def comp_closed(self, st, e, elt, leak):
        """[f(x) for x in xs]: element j is f(xs[j])"""
        g = e.generators[0]
        out = []
        for s, v in self.ev(st, g.iter):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            its = self.iterate(s, v)
            for s2, it in its:
                if isinstance(it, Exc):
                    out.append((s2, it))
                    continue
                if it.items is not None:
                    return None
                j = z3.Int(fresh_name("cj"))
                r = self.pure_at(s2, it, g.target, elt, j)
                if r is None:
                    return None
                if isinstance(r, Exc):
                    # element evaluation always raises (if there are elements)
                    return None
                ty, t = r
                s2.assume(it.n >= 0)
                if z3.is_select(t) and t.num_args() == 2 and t.arg(1).eq(j) and not self.mentions(t.arg(0), j):
                    # the elements themselves
                    arr = t.arg(0)
                else:
                    arr = z3.Const(fresh_name("comp"), arr_sort(ty))
                    s2.assume(forall(j, z3.Implies(z3.And(0 <= j, j < it.n), arr[j] == t),
                                     [arr[j]]))
                if it.kind == "edges" or it.kind in getattr(self.cur, "eager", ()):
                    s2.assume(forall(j, z3.Implies(z3.And(0 <= j, j < it.n), arr[j] == t),
                                     [it.key(j)]))
                if leak:
                    for n in self.comp_vars(e.generators):
                        s2.env[n] = Undef("comprehension variable")
                rr = self.new_symlist(s2, ty, arr, it.n)
                s2.place(rr).shared = self.mutable_ty(ty)
                out.append((s2, rr))
        return out

    def comp_filter(self, st, e, elt, leak):
        """[f(x) for x in xs if p(x)]: element k is f(xs[idx(k)]), where idx
        enumerates, in increasing order, exactly the positions where p holds"""
        g = e.generators[0]
        out = []
        for s, v in self.ev(st, g.iter):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2, it in self.iterate(s, v):
                if isinstance(it, Exc):
                    out.append((s2, it))
                    continue
                if it.items is not None:
                    return None
                j = z3.Int(fresh_name("cj"))

                def cond(s0):
                    conds = g.ifs[0] if len(g.ifs) == 1 else N(
                        "BoolOp", e.line, op="And", values=list(g.ifs))
                    r = []
                    for s3, c in self.ev(s0, conds):
                        if isinstance(c, Exc):
                            r.append((s3, c))
                        else:
                            for s4, b in self.truth(s3, c):
                                r.append((s4, b if isinstance(b, Exc) else T(
                                    BOOL, zbool(b))))
                    return r
                pr = self.pure_at(s2, it, g.target, cond, j)
                if pr is None or pr[0] != BOOL:
                    return None
                n0 = len(s2.pc)
                r = self.pure_at(s2, it, g.target, elt, j, [pr[1]])
                if r is None:
                    return None
                ty, t = r
                p = pr[1]
                arr = z3.Const(fresh_name("comp"), arr_sort(ty))
                idx = z3.Function(fresh_name("cidx"), z3.IntSort(), z3.IntSort())
                rnk = z3.Function(fresh_name("crnk"), z3.IntSort(), z3.IntSort())
                m = z3.Int(fresh_name("clen"))
                k, l = z3.Int(fresh_name("ck")), z3.Int(fresh_name("cl"))
                sub = lambda f, x: z3.substitute(f, (j, x))
                s2.assume(z3.And(it.n >= 0, 0 <= m, m <= it.n))
                for pt in ([arr[k]], [idx(k)]):
                    s2.assume(forall(k, z3.Implies(z3.And(0 <= k, k < m), z3.And(
                        0 <= idx(k), idx(k) < it.n, sub(p, idx(k)), rnk(idx(k)) == k,
                        arr[k] == sub(t, idx(k)))), pt))
                z0 = z3.IntVal(0)
                # the first selected element, if any
                s2.assume(z3.Implies(m > 0, z3.And(0 <= idx(z0), idx(z0) < it.n, sub(p, idx(z0)), arr[z0] == sub(t, idx(z0)))))
                s2.assume(forall([k, l], z3.Implies(z3.And(0 <= k, k < l, l < m),
                                                    idx(k) < idx(l)),
                                 [z3.MultiPattern(idx(k), idx(l))]))
                key = it.key(j) if getattr(it, "key", None) else None
                if key is not None:
                    # make the enumeration itself known to the solver
                    k0 = it.key(z3.IntVal(0))
                    s2.assume(fun("keep_" + str(k0.sort()), k0.sort(), z3.BoolSort())(k0))
                for pt in ([rnk(j)],) + (([key],) if key is not None else ()):
                    s2.assume(forall(j, z3.Implies(z3.And(0 <= j, j < it.n, p), z3.And(
                        0 <= rnk(j), rnk(j) < m, idx(rnk(j)) == j,
                        arr[rnk(j)] == t)), pt))
                # number of selected elements, if the contract names a
                # counting function (its recurrence is an obligation)
                for lab, F in (self.cur.counts(self, s2) if self.cur is not None else ()):
                    base = F(z3.IntVal(0)) == 0
                    s3 = s2.copy()
                    s3.assume(z3.And(0 <= j, j < it.n))
                    step = F(j + 1) == F(j) + z3.If(p, 1, 0)
                    if self.check(s2.pc, base, self.hto)[0] == "unsat" and \
                            self.check(s3.pc, step, self.hto)[0] == "unsat":
                        self.oblige("count:%s:zero" % lab, s2, base, e.line, "inv")
                        self.oblige("count:%s:step" % lab, s3, step, e.line, "inv")
                        s2.assume(m == F(it.n))
                        # hence the place of a selected element
                        s2.assume(forall(j, z3.Implies(z3.And(0 <= j, j < it.n, p), rnk(j) == F(j)), [rnk(j)]))
                if leak:
                    for n in self.comp_vars(e.generators):
                        s2.env[n] = Undef("comprehension variable")
                rr = self.new_symlist(s2, ty, arr, m)
                s2.place(rr).shared = self.mutable_ty(ty)
                out.append((s2, rr))
        return out

    def pure_at(self, st, it, target, elt, j, given=()):
        """(type, term) of elt with target bound to element j, if evaluation
        is single-path, free of side effects and cannot raise; else None"""
        s = st.copy()
        s.assume(z3.And(0 <= j, j < it.n))
        for f in given:
            s.assume(f)
        for f in self.elem_facts(it, j):
            s.assume(f)
        npc = len(s.pc)
        heap0, ver0 = dict(s.heap), dict(s.ver)
        rec, self.recording = self.recording, False
        try:
            r0 = self.assign(s, target, it.elem(j))
            if len(r0) != 1 or r0[0][1] is not None:
                return None
            if callable(elt):
                r = elt(r0[0][0])
            else:
                r = self.ev(r0[0][0], elt)
            if len(r) > 1 and len(r) <= 8 and not any(isinstance(v, Exc) for _, v in r):
                return self.merge_vals(st, npc, heap0, ver0, r)
            if len(r) != 1 or isinstance(r[0][1], Exc):
                return None
            s2, v = r[0]
            if any(s2.ver.get(p) is not ver0[p] for p in ver0):
                return None
            ty = self.type_of(s2, v)
            if not self.known(ty) or (ty.k in ("seq", "dict", "set") and any(
                    p not in ver0 for p in s2.ver) and False):
                return None
            t = self.enc(s2, v, ty)
            # assumptions made along the way must not constrain j
            for f in s2.pc[npc:]:
                if self.mentions(f, j) and not has_quant(f) and \
                        not self.entails_ctx(st, j, it.n, f):
                    return None
                if has_quant(f) and self.mentions(f, j):
                    return None
            return ty, t
        except Unsupported as ex:
            if os.environ.get("PYVC_PURE"):
                print("pure_at:", ex)
            return None
        finally:
            self.recording = rec

    def merge_vals(self, st, npc, heap0, ver0, r):
        ty = UNK
        for s2, v in r:
            if any(s2.ver.get(p) is not ver0[p] for p in ver0):
                return None
            ty = self.join(ty, self.type_of(s2, v))
        if not self.known(ty):
            return None
        t = None
        for s2, v in reversed(r):
            x = self.enc(s2, v, ty)
            if any(has_quant(f) for f in s2.pc[npc:]):
                return None
            t = x if t is None else z3.If(zand(*s2.pc[npc:]), x, t)
        return ty, t

    def entails_ctx(self, st, j, n, f):
        s = st.copy()
        s.assume(z3.And(0 <= j, j < n))
        return self.entails(s, f)

    def mentions(self, f, c):
        todo = [f]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(c):
                return True
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        return False

    # ---------------------------------------------------------- iteration
    def elem_facts(self, it, k):
        return it.facts(k) if getattr(it, "facts", None) else []

    def iterate(self, st, v):
        """[(state, It|Exc)]"""
        if isinstance(v, IterV):
            return [(st, v.it)]
        if isinstance(v, Tupl):
            return [(st, It(z3.IntVal(len(v.items)), None, v.items))]
        if isinstance(v, PStr):
            return [(st, It(z3.IntVal(len(v.s)), None, [PStr(c) for c in v.s]))]
        if isinstance(v, SeqV):
            return [(st, It(v.ln, lambda k: self.dec(v.ety, v.arr[k], ("list", v, k, None, None)),
                            None, v, "seq", key=lambda k: v.arr[k]))]
        if isinstance(v, DictV):
            en = enum_fn(v.kty)(v.dom)
            return [(st, It(card_fn(v.kty)(v.dom), lambda k: self.dec(v.kty, en[k]),
                            None, v, "dict", key=lambda k: en[k]))]
        if isinstance(v, SetV):
            en = enum_fn(v.ety)(v.arr)
            return [(st, It(card_fn(v.ety)(v.arr), lambda k: self.dec(v.ety, en[k]),
                            None, v, "set", key=lambda k: en[k]))]
        if isinstance(v, T) and v.ty.k == "opt":
            return self.unopt(st, v, lambda s, x: self.iterate(s, x))
        if isinstance(v, ModelV):
            return v.model.iterate(self, st, v)
        if isinstance(v, NoneV) or (isinstance(v, T) and v.ty.k in (
                "int", "real", "bool")):
            return [(st, Exc("TypeError", None, None))]
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "list":
                if p.gen:
                    if getattr(p, "consumed", False):
                        raise Unsupported("generator consumed twice")
                    p = p.copy()
                    p.consumed = True
                    st.heap[v.pid] = p
                if p.items is not None:
                    return [(st, It(z3.IntVal(len(p.items)), None, list(p.items),
                                    v, "list", (v.pid,)))]
                return [(st, It(p.ln, lambda k: self.dec(p.ety, p.arr[k], self.mkpath(st, "list", v, k)),
                                None, v, "list", (v.pid,), key=lambda k: p.arr[k]))]
            if p.kind == "dict":
                if p.items is not None:
                    ks = [key_val(k) for k in p.items]
                    return [(st, It(z3.IntVal(len(ks)), None, ks, v, "dict", (v.pid,)))]
                arr, ln = self.dict_order(p)
                it = It(ln, lambda k: self.dec(p.kty, arr[k]), None, v, "dict", (v.pid,),
                        key=lambda k: arr[k])
                return [(st, it)]
            if p.kind == "set":
                if p.items is not None and len(p.items) <= 1:
                    return [(st, It(z3.IntVal(len(p.items)), None, list(p.items),
                                    v, "set", (v.pid,)))]
                p = self.sym_set(st, v)
                en = enum_fn(p.ety)(p.arr)
                return [(st, It(card_fn(p.ety)(p.arr), lambda k: self.dec(p.ety, en[k]),
                                None, v, "set", (v.pid,), key=lambda k: en[k]))]
            if p.kind == "obj":
                m = self.find_method(p.cls, "__iter__")
                if m is not None:
                    out = []
                    for s, r in self.call(st, Bound(v, m), [], {}, None):
                        if isinstance(r, Exc):
                            out.append((s, r))
                        else:
                            out.extend(self.iterate(s, r))
                    return out
                for f in ("__list__", "__dict__"):
                    if f in p.fields:
                        return self.iterate(st, p.fields[f])
        if isinstance(v, T):
            h = self.models.get("iter:" + v.ty.key)
            if h is not None:
                return h(self, st, v)
        raise Unsupported("iteration over %r" % (v,))

    def dict_order(self, p):
        """(arr, len): iteration order of a symbolic dict place"""
        if p.order is not None:
            return p.order
        return enum_fn(p.kty)(p.dom), card_fn(p.kty)(p.dom)

    def materialize(self, st, it):
        """list place with the elements of an It"""
        if it.items is not None:
            return self.new_list(st, it.items)
        if it.kind in ("seq", "list") and it.src is not None and \
                getattr(it, "plain", True):
            ety = self.seq_ty(st, it.src)
            arr, ln = self.as_arr(st, it.src)
            r = self.new_symlist(st, ety, arr, ln)
            st.place(r).shared = self.mutable_ty(ety)
            return r
        k = z3.Int(fresh_name("mk"))
        x = it.elem(k)
        ty = self.type_of(st, x)
        arr = z3.Const(fresh_name("mat"), arr_sort(ty))
        fs = self.elem_facts(it, k)
        st.assume(forall(k, z3.Implies(z3.And(0 <= k, k < it.n), zand(
            arr[k] == self.enc(st.copy(), x, ty), *fs)), [arr[k]]))
        st.assume(it.n >= 0)
        r = self.new_symlist(st, ty, arr, it.n)
        st.place(r).shared = self.mutable_ty(ty)
        return r

    def to_list(self, st, v):
        """[(state, fresh list Ref | Exc)]"""
        out = []
        for s, it in self.iterate(st, v):
            out.append((s, it if isinstance(it, Exc) else self.materialize(s, it)))
        return out

    # ----------------------------------------------------------- builtins
    def call_builtin(self, st, name, args, kw, e):
        line = e.line if e is not None else None
        m = getattr(self, "bi_" + name.replace(".", "_"), None)
        if m is not None:
            return m(st, args, kw, e)
        if "." in name:
            mod, last = name.rsplit(".", 1)
            if mod in ("list", "dict", "set", "str", "object", "frozenset") and args:
                base = args[0]
                if isinstance(base, Ref) and st.place(base).kind == "obj":
                    p = st.place(base)
                    f = {"list": "__list__", "dict": "__dict__"}.get(mod)
                    if f in p.fields:
                        base = p.fields[f]
                    elif last == "__init__":
                        return [(st, NONE)]
                rest = args[1:]
                if mod == "list" and last in LIST_RAW:
                    # these look at the elements of a list subclass directly
                    rest = [self.listref(st, x) or x for x in rest]
                if last in ("__iadd__", "__imul__"):
                    return [(s, args[0] if r is base else r) for s, r in
                            self.call_method(st, base, last, rest, kw, e)]
                return self.call_method(st, base, last, rest, kw, e)
        raise Unsupported("call of " + name)

    def bi_warnings_warn(self, st, args, kw, e):
        return [(st, NONE)]

    def bi_noop(self, st, args, kw, e):
        return [(st, NONE)]

    def bi_len(self, st, args, kw, e):
        v = args[0]
        if isinstance(v, T) and v.ty.k == "opt":
            return self.unopt(st, v, lambda s, x: self.bi_len(s, [x], kw, e), e)
        if isinstance(v, Ref) and st.place(v).kind == "obj":
            m = self.find_method(st.place(v).cls, "__len__")
            if m is not None:
                return self.call(st, Bound(v, m), [], {}, e)
        if isinstance(v, NoneV) or (isinstance(v, T) and v.ty.k in ("int", "real", "bool")):
            return [(st, Exc("TypeError", None, e.line if e else None))]
        if isinstance(v, Ref) and st.place(v).kind == "list" and st.place(v).gen:
            return [(st, Exc("TypeError", None, e.line if e else None))]
        t = self.zlen(st, v)
        if not z3.is_int_value(t):
            st.assume(t >= 0)
        return [(st, T(INT, t))]

    def range_step(self, st, lo, hi, d, e):
        """range(lo, hi, d) where d is not a constant"""
        out = []
        for s, pos in self.split(st, d > 0):
            if not pos:
                for s2, zero in self.split(s, d == 0):
                    if not zero:
                        raise Unsupported("range with a step that may be negative")
                    out.append((s2, Exc("ValueError", None, e.line)))
                continue
            if "range-step" in self.models:
                # what the contract says the step is
                t = self.models["range-step"](self, s)
                self.oblige("range-step", s, d == t, e.line)
                d = t
            n = z3.Int(fresh_name("steps"))
            s.assume(n >= 0)
            s.assume(z3.Implies(hi <= lo, n == 0))
            s.assume(z3.Implies(hi > lo, z3.And(n >= 1, lo + (n - 1) * d < hi, hi <= lo + n * d)))
            k = z3.Int("k")
            a = z3.Const(fresh_name("range"), arr_sort(INT))
            s.assume(forall(k, a[k] == lo + k * d, [a[k]]))
            r = self.new_symlist(s, INT, a, n)
            s.place(r).rng = (lo, n, lambda k: T(INT, lo + k * d))
            out.append((s, r))
        return out

    def bi_vars(self, st, args, kw, e):
        if len(args) != 1 or not isinstance(args[0], Ref) or st.place(args[0]).kind != "obj":
            raise Unsupported("vars")
        return self.obj_attr(st, args[0], "__dict__", e)

    def bi_exit(self, st, args, kw, e):
        return [(st, Exc("SystemExit", args[0] if args else NONE, e.line))]

    def bi_range(self, st, args, kw, e):
        ns = [self.num(st, a) for a in args]
        if any(n is None for n in ns) or any(n.ty != INT for n in ns):
            raise Unsupported("range")
        lo = ns[0].t if len(ns) > 1 else z3.IntVal(0)
        hi = ns[1].t if len(ns) > 1 else ns[0].t
        step = const_int(ns[2]) if len(ns) > 2 else 1
        if step is None:
            return self.range_step(st, lo, hi, ns[2].t, e)
        if step == 0:
            raise Unsupported("range step")
        cl, ch = const_int(T(INT, lo)), const_int(T(INT, hi))
        if cl is not None and ch is not None and len(range(cl, ch, step)) <= 40:
            return [(st, self.new_list(st, [I(i) for i in range(cl, ch, step)]))]
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if step == 1:
            if self.entails(st, lo <= hi):
                n = z3.simplify(hi - lo)
            else:
                n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            elem = lambda k: T(INT, z3.simplify(lo + k))
            arr = range_arr()(lo)
        elif step == -1:
            n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
            elem = lambda k: T(INT, lo - k)
            f = fun("rangearr_dn", z3.IntSort(), arr_sort(INT))

            def mk():
                a, i = z3.Ints("a i")
                return [forall([a, i], f(a)[i] == a - i, [f(a)[i]])]
            TH.add("rangearr_dn", mk)
            arr = f(lo)
        else:
            if step > 0:
                n = z3.If(hi > lo, (hi - lo + step - 1) / step, z3.IntVal(0))
            else:
                n = z3.If(lo > hi, (lo - hi - step - 1) / (-step), z3.IntVal(0))
            elem = lambda k: T(INT, lo + k * step)
            f = fun("rangearr_s", z3.IntSort(), z3.IntSort(), arr_sort(INT))

            def mk():
                a, b, i = z3.Ints("a b i")
                return [forall([a, b, i], f(a, b)[i] == a + i * b, [f(a, b)[i]])]
            TH.add("rangearr_s", mk)
            arr = f(lo, z3.IntVal(step))
        r = self.new_symlist(st, INT, arr, n)
        p = st.place(r)
        p.rng = (lo, n, elem)
        return [(st, r)]

    bi_xrange = bi_range

    def iters(self, st, vs):
        """iterate several values: [(state, [It...]|Exc)]"""
        outs = [(st, [])]
        for v in vs:
            nxt = []
            for s, its in outs:
                if isinstance(its, Exc):
                    nxt.append((s, its))
                    continue
                for s2, it in self.iterate(s, v):
                    nxt.append((s2, it if isinstance(it, Exc) else its + [it]))
            outs = nxt
        return outs

    def it_elem(self, it, k):
        if it.items is not None:
            c = z3.simplify(k) if not isinstance(k, int) else z3.IntVal(k)
            if z3.is_int_value(c):
                return it.items[c.as_long()]
            raise Unsupported("symbolic index into concrete iterable")
        return it.elem(k)

    def lift_it(self, st, it):
        """an It with an elem function, also for concrete items"""
        if it.items is None:
            return it
        r = self.new_list(st, it.items)
        if not it.items:
            return It(z3.IntVal(0), None, [])
        self.sym_list(st, r)
        return self.iterate(st, r)[0][1]

    def bi_zip(self, st, args, kw, e):
        def f(s, its):
            if all(it.items is not None for it in its):
                return [(s, self.new_list(s, [Tupl(t) for t in zip(
                    *[it.items for it in its])]))]
            if any(it.items is not None and not it.items for it in its):
                return [(s, self.new_list(s, []))]
            its = [self.lift_it(s, it) for it in its]
            n = its[0].n
            for it in its[1:]:
                if not n.eq(it.n):
                    if self.entails(s, n == it.n):
                        continue
                    n = z3.If(it.n < n, it.n, n)
            r = It(n, lambda k: Tupl([it.elem(k) for it in its]), None, None, "zip",
                   tuple(p for it in its for p in it.pids))
            r.facts = lambda k: [x for it in its for x in self.elem_facts(it, k)]
            r.parts = its
            return [(s, IterV(r))]
        return self.bind(self.iters(st, args), f)

    bi_itertools_izip = bi_zip

    def bi_enumerate(self, st, args, kw, e):
        def f(s, its):
            it = its[0]
            start = args[1] if len(args) > 1 else I(0)
            if it.items is not None:
                return [(s, self.new_list(s, [Tupl([T(INT, z3.simplify(start.t + i)), x])
                                              for i, x in enumerate(it.items)]))]
            r = It(it.n, lambda k: Tupl([T(INT, z3.simplify(start.t + k)), it.elem(k)]),
                   None, None, "enum", it.pids)
            r.facts = lambda k: self.elem_facts(it, k)
            return [(s, IterV(r))]
        return self.bind(self.iters(st, args[:1]), f)

    def bi_reversed(self, st, args, kw, e):
        def f(s, its):
            it = its[0]
            if it.items is not None:
                return [(s, self.new_list(s, list(reversed(it.items))))]
            r = It(it.n, lambda k: it.elem(it.n - 1 - k), None, None, "rev", it.pids)
            r.facts = lambda k: self.elem_facts(it, it.n - 1 - k)
            return [(s, IterV(r))]
        return self.bind(self.iters(st, args), f)

    def bi_next(self, st, args, kw, e):
        v = args[0]
        if not isinstance(v, ModelV):
            raise Unsupported("next()")
        out = []
        for s, r in v.model.method(self, st, v, "next", [], {}, e):
            if isinstance(r, Exc) and r.cls == "StopIteration" and len(args) > 1:
                r = args[1]
            out.append((s, r))
        return out

    def bi_iter(self, st, args, kw, e):
        if len(args) == 1 and isinstance(args[0], ModelV) and getattr(args[0].model, "has_iter", False):
            return args[0].model.method(self, st, args[0], "__iter__", [], {}, e)
        return self.bind(self.iters(st, args), lambda s, its: [(s, IterV(its[0]))])

    def bi_itertools_chain(self, st, args, kw, e):
        outs = [(st, [])]
        for a in args:
            outs = self.bind(outs, lambda s, vs: self.bind(
                self.to_list(s, a), lambda s2, l: [(s2, vs + [l])]))

        def f(s, ls):
            r = ls[0]
            for x in ls[1:]:
                r = self.concat(s, r, x)
            return [(s, r)]
        return self.bind(outs, f)

    # ---- min / max
    def extremum(self, st, args, kw, e, ismax):
        key = kw.get("key")
        line = e.line if e is not None else None
        if len(args) > 1:
            return self.fold_ext(st, args, key, ismax)
        out = []
        for s, it in self.iterate(st, args[0]):
            if isinstance(it, Exc):
                out.append((s, it))
                continue
            if it.items is not None:
                if not it.items:
                    out.append((s, Exc("ValueError", None, line)))
                else:
                    out.extend(self.fold_ext(s, it.items, key, ismax))
                continue
            ne, em = self.branch(s, it.n > 0)
            if em is not None:
                out.append((em, Exc("ValueError", None, line)))
            if ne is None:
                continue
            w = z3.Int(fresh_name("ext"))
            j = z3.Int(fresh_name("j"))
            ne.assume(z3.And(0 <= w, w < it.n))
            for f in self.elem_facts(it, w):
                ne.assume(f)
            vw, vj = it.elem(w), it.elem(j)
            if key is not None:
                kw_ = self.pure_call(ne, key, vw, z3.And(0 <= w, w < it.n))
                kj = self.pure_call(ne, key, vj, z3.And(0 <= j, j < it.n))
                if kw_ is None or kj is None:
                    raise Unsupported("key function")
            else:
                kw_, kj = vw, vj
            le = self.less(ne, kj, kw_, True) if ismax else self.less(ne, kw_, kj, True)
            lt = self.less(ne, kj, kw_, False) if ismax else self.less(ne, kw_, kj, False)
            pat = self.elem_pat(ne, vj)
            ne.assume(forall(j, z3.Implies(z3.And(0 <= j, j < it.n), zand(
                zbool(le), z3.Implies(j < w, zbool(lt)))), pat))
            out.append((ne, vw))
        return out

    def elem_pat(self, st, v):
        try:
            t = self.enc(st.copy(), v, self.type_of(st, v))
        except Unsupported:
            return None
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() in (
                z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
            return [t]
        return None

    def pure_call(self, st, f, v, pre):
        s = st.copy()
        s.assume(pre)
        ver0 = dict(s.ver)
        r = self.call(s, f, [v], {}, None)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            return None
        if any(r[0][0].ver.get(p) is not ver0[p] for p in ver0):
            return None
        return r[0][1]

    def fold_ext(self, st, items, key, ismax):
        if any(self.num(st, x) is None for x in items) or key is not None:
            if len(items) == 1:
                return [(st, items[0])]
            # general ordered values: fork
            outs = [(st, items[0])]
            for x in items[1:]:
                nxt = []
                for s, cur in outs:
                    a, b = cur, x
                    if key is not None:
                        ka = self.call(s, key, [a], {}, None)
                        if len(ka) != 1 or isinstance(ka[0][1], Exc):
                            raise Unsupported("key")
                        kb = self.call(ka[0][0], key, [b], {}, None)
                        if len(kb) != 1 or isinstance(kb[0][1], Exc):
                            raise Unsupported("key")
                        s, ka, kb = kb[0][0], ka[0][1], kb[0][1]
                    else:
                        ka, kb = a, b
                    c = self.less(s, ka, kb, False) if ismax else self.less(s, kb, ka, False)
                    y, n = self.branch(s, zbool(c))
                    if y is not None:
                        nxt.append((y, x))
                    if n is not None:
                        nxt.append((n, cur))
                outs = nxt
            return outs
        ns = [self.num(st, x) for x in items]
        ty = REAL if any(n.ty == REAL for n in ns) else INT
        t = self.enc(st, ns[0], ty)
        for n in ns[1:]:
            u = self.enc(st, n, ty)
            t = z3.If(u > t, u, t) if ismax else z3.If(u < t, u, t)
        return [(st, T(ty, t))]

    def bi_max(self, st, args, kw, e):
        return self.extremum(st, args, kw, e, True)

    def bi_min(self, st, args, kw, e):
        return self.extremum(st, args, kw, e, False)

    def bi_sum(self, st, args, kw, e):
        start = args[1] if len(args) > 1 else I(0)
        out = []
        for s, it in self.iterate(st, args[0]):
            if isinstance(it, Exc):
                out.append((s, it))
                continue
            if it.items is not None:
                outs = [(s, start)]
                for x in it.items:
                    outs = self.bind(outs, lambda s2, a: self.binop(s2, "Add", a, x, e))
                out.extend(outs)
                continue
            l = self.materialize(s, it)
            ety = self.seq_ty(s, l)
            if ety == BOOL:
                f = fun("bool2int_arr", arr_sort(BOOL), arr_sort(INT))

                def mk():
                    a = z3.Const("a", arr_sort(BOOL))
                    i = z3.Int("i")
                    return [forall([a, i], f(a)[i] == z3.If(a[i], 1, 0), [f(a)[i]])]
                TH.add("bool2int_arr", mk)
                arr, ln = self.as_arr(s, l)
                t = T(INT, sum_fn(INT)(f(arr), ln))
            elif ety in (INT, REAL):
                arr, ln = self.as_arr(s, l)
                t = T(ety, sum_fn(ety)(arr, ln))
            else:
                raise Unsupported("sum")
            if ety in (BOOL, INT):
                self.sum_is(s, t.t, arr, ln, ety, e)
            out.extend(self.binop(s, "Add", start, t, e) if const_int(start) != 0
                       else [(s, t)])
        return out

    def sum_is(self, st, total, arr, n, ety, e):
        """the sum is the number of elements if all are one, or what a counting function of the contract gives
        (that it starts from zero and grows by the elements are obligations)"""
        j = z3.Int(fresh_name("sj"))
        x = arr[j] if ety == INT else z3.If(arr[j], 1, 0)
        s2 = st.copy()
        s2.assume(z3.And(0 <= j, j < n))
        for lab, F in [("number", lambda k: k)] + list(self.cur.counts(self, st) if self.cur is not None else ()):
            base, step = F(z3.IntVal(0)) == 0, F(j + 1) == F(j) + x
            if self.check(s2.pc, step, self.hto)[0] == "unsat" and self.check(st.pc, base, self.hto)[0] == "unsat":
                self.oblige("sum:%s:zero" % lab, st, base, e.line if e else None, "inv")
                self.oblige("sum:%s:step" % lab, s2, step, e.line if e else None, "inv")
                st.assume(z3.Implies(n >= 0, total == F(n)))
                return

    def bi_abs(self, st, args, kw, e):
        n = self.num(st, args[0])
        if n is None:
            raise Unsupported("abs")
        return [(st, T(n.ty, z3.If(n.t < 0, -n.t, n.t)))]

    def bi_float(self, st, args, kw, e):
        if not args:
            return [(st, T(REAL, z3.RealVal(0)))]
        v = args[0]
        if isinstance(v, T) and v.ty.k == "opt":
            return self.unopt(st, v, lambda s, x: self.bi_float(s, [x], kw, e), e)
        n = self.num(st, v)
        if n is not None:
            return [(st, T(REAL, self.enc(st, n, REAL)))]
        if isinstance(v, PStr):
            try:
                return [(st, T(REAL, z3.RealVal(repr(float(v.s)))))]
            except ValueError:
                return [(st, Exc("ValueError", None, e.line if e else None))]
        if isinstance(v, T) and v.ty == STR:
            f = fun("float_of_str", STR.sort, z3.RealSort())
            g = fun("is_float_str", STR.sort, z3.BoolSort())
            out = []
            a, b = self.branch(st, g(v.t))
            if a is not None:
                out.append((a, T(REAL, f(v.t))))
            if b is not None:
                out.append((b, Exc("ValueError", None, e.line if e else None)))
            return out
        raise Unsupported("float of %r" % (v,))

    def bi_int(self, st, args, kw, e):
        v = args[0]
        n = self.num(st, v)
        if n is not None:
            if n.ty == INT:
                return [(st, n)]
            return [(st, T(INT, z3.If(n.t >= 0, z3.ToInt(n.t), -z3.ToInt(-n.t))))]
        if isinstance(v, PStr):
            try:
                return [(st, I(int(v.s)))]
            except ValueError:
                return [(st, Exc("ValueError", None, e.line if e else None))]
        if isinstance(v, T) and v.ty == STR:
            f = fun("int_of_str", STR.sort, z3.IntSort())
            g = fun("is_int_str", STR.sort, z3.BoolSort())
            out = []
            a, b = self.branch(st, g(v.t))
            if a is not None:
                out.append((a, T(INT, f(v.t))))
            if b is not None:
                out.append((b, Exc("ValueError", None, e.line if e else None)))
            return out
        raise Unsupported("int of %r" % (v,))

    bi_long = bi_int

    def bi_bool(self, st, args, kw, e):
        return self.bind(self.truth(st, args[0]) if args else [(st, False)],
                         lambda s, c: [(s, B(c))])

    def bi_list(self, st, args, kw, e):
        if not args:
            return [(st, self.new_list(st, []))]
        return self.to_list(st, args[0])

    def bi_tuple(self, st, args, kw, e):
        if not args:
            return [(st, Tupl([]))]
        if isinstance(args[0], (Tupl,)) or (isinstance(args[0], SeqV) and
                                            args[0].kind == "tuple"):
            return [(st, args[0])]

        def f(s, l):
            p = s.place(l)
            if p.items is not None:
                return [(s, Tupl(p.items))]
            return [(s, SeqV(p.ety, p.arr, p.ln, "tuple"))]
        return self.bind(self.to_list(st, args[0]), f)

    def bi_set(self, st, args, kw, e):
        if not args:
            return [(st, st.alloc(SetP(items=[])))]
        v = args[0]
        if isinstance(v, SetV):
            return [(st, st.alloc(SetP(ety=v.ety, arr=v.arr)))]
        if isinstance(v, Ref) and st.place(v).kind == "set":
            p = st.place(v).copy()
            p.escaped = False
            return [(st, st.alloc(p))]
        if isinstance(v, DictV):
            return [(st, st.alloc(SetP(ety=v.kty, arr=v.dom)))]
        dr = self.dictref(st, v)
        if dr is not None and st.place(dr).items is None:
            p = st.place(dr)
            return [(st, st.alloc(SetP(ety=p.kty, arr=p.dom)))]
        ks = getattr(st.place(v), "keyset", None) if isinstance(v, Ref) else None
        if ks is not None:
            return [(st, st.alloc(SetP(ety=ks[0], arr=ks[1])))]

        def f(s, l):
            p = s.place(l)
            if p.items is not None:
                r = s.alloc(SetP(items=[]))
                for x in p.items:
                    self.set_add(s, r, x)
                return [(s, r)]
            return [(s, s.alloc(SetP(ety=p.ety, arr=elems_fn(p.ety)(p.arr, p.ln))))]
        return self.bind(self.to_list(st, v), f)

    bi_frozenset = bi_set
    bi_sets_Set = bi_set

    def bi_dict(self, st, args, kw, e):
        r = st.alloc(DictP(items={}))
        out = [(st, NONE)]
        if args or kw:
            out = self.call_method(st, r, "update", args, kw, e)
        return [(s, x if isinstance(x, Exc) else r) for s, x in out]

    def bi_dict_fromkeys(self, st, args, kw, e):
        """keys known one by one; all map to the same value"""
        v = args[1] if len(args) > 1 else NONE
        if not kw and "fromkeys" in self.models and isinstance(args[0], (Ref, DictV)) and self.dictref(st, args[0]) is not None \
                and st.place(self.dictref(st, args[0])).items is None:
            # the type of the values is given by the contract
            p, ty = st.place(self.dictref(st, args[0])), self.models["fromkeys"]
            x = self.enc(st, v, ty)
            return [(st, st.alloc(DictP(kty=p.kty, vty=ty, dom=p.dom, mp=z3.K(p.kty.sort, x))))]
        if not kw and v is NONE:
            # the keys are those of a list
            out = []
            for s, l in self.to_list(st, args[0]):
                if isinstance(l, Exc) or s.place(l).items is not None:
                    break
                p, ty = s.place(l), OPT(BOOL)
                dom = elems_fn(p.ety)(*self.as_arr(s, l))
                out.append((s, s.alloc(DictP(kty=p.ety, vty=ty, dom=dom, mp=z3.K(p.ety.sort, self.enc(s, NONE, ty))))))
            else:
                return out
        if kw or not (isinstance(args[0], Tupl) or (isinstance(args[0], Ref) and getattr(
                st.place(args[0]), "items", None) is not None and st.place(args[0]).kind == "list")):
            raise Unsupported("fromkeys")
        ks = args[0].items if isinstance(args[0], Tupl) else st.place(args[0]).items
        r = st.alloc(DictP(items={}))
        out = [(st, None)]
        for k in ks:
            nxt = []
            for s, x in out:
                if isinstance(x, Exc):
                    nxt.append((s, x))
                else:
                    nxt.extend(self.setitem(s, r, k, v, e))
            out = nxt
        return [(s, x if isinstance(x, Exc) else r) for s, x in out]

    def bi_collections_OrderedDict(self, st, args, kw, e):
        # an OrderedDict is treated as a dict: the proofs do not rely on its order
        self.notes.add("OrderedDict treated as dict")
        return self.bi_dict(st, args, kw, e)

    bi_networkx_utils_OrderedDict = bi_collections_OrderedDict

    def bi_str(self, st, args, kw, e):
        v = args[0] if args else PStr("")
        if isinstance(v, PStr) or (isinstance(v, T) and v.ty == STR):
            return [(st, v)]
        if isinstance(v, SeqV) and v.kind == "str":
            return [(st, v)]
        c = self.pyconst(v)
        if c is not None:
            return [(st, PStr(str(c[0])))]
        if isinstance(v, NoneV):
            return [(st, PStr("None"))]
        if isinstance(v, ModelV) and hasattr(v.model, "str"):
            return v.model.str(self, st, v)
        if isinstance(v, Ref) and st.place(v).kind == "obj":
            for nm in ("__str__", "__repr__"):
                m = self.find_method(st.place(v).cls, nm)
                if m is not None:
                    return self.call(st, Bound(v, m), [], {}, e)
        try:
            ty = self.type_of(st, v)
            f = fun("str_of_" + ty.key, ty.sort, STR.sort)
            return [(st, T(STR, f(self.enc(st.copy(), v, ty))))]
        except Unsupported:
            return [(st, T(STR, z3.Const(fresh_name("str"), STR.sort)))]

    bi_unicode = bi_str

    def bi_repr(self, st, args, kw, e):
        v = args[0]
        if isinstance(v, Ref) and st.place(v).kind == "obj":
            m = self.find_method(st.place(v).cls, "__repr__")
            if m is not None:
                return self.call(st, Bound(v, m), [], {}, e)
        try:
            ty = self.type_of(st, v)
            f = fun("repr_of_" + ty.key, ty.sort, STR.sort)
            return [(st, T(STR, f(self.enc(st.copy(), v, ty))))]
        except Unsupported:
            return [(st, T(STR, z3.Const(fresh_name("repr"), STR.sort)))]

    def bi_round(self, st, args, kw, e):
        f = fun("round2", z3.RealSort(), z3.IntSort(), z3.RealSort())
        n = self.num(st, args[0])
        d = args[1].t if len(args) > 1 else z3.IntVal(0)
        return [(st, T(REAL, f(self.enc(st, n, REAL), d)))]

    def bi_id(self, st, args, kw, e):
        return [(st, T(INT, z3.Int(fresh_name("id"))))]

    def bi_callable(self, st, args, kw, e):
        return [(st, B(isinstance(args[0], (Fn, Bound, UFn, Builtin, Cls, ExtCls))))]

    def bi_cmp(self, st, args, kw, e):
        a, b = args
        eq = self.eq1(st, a, b)
        lt = self.less(st, a, b, False)
        return [(st, T(INT, z3.If(zbool(eq), 0, z3.If(zbool(lt), -1, 1))))]

    def bi_any(self, st, args, kw, e, every=False):
        def f(s, its):
            it = its[0]
            if it.items is not None:
                r = []
                for x in it.items:
                    t = self.truth(s, x)
                    if len(t) != 1 or isinstance(t[0][1], Exc):
                        raise Unsupported("any/all")
                    r.append(zbool(t[0][1]))
                return [(s, B(zand(*r) if every else zor(*r)))]
            j = z3.Int(fresh_name("j"))
            x = it.elem(j)
            t = self.truth(s, x)
            if len(t) != 1 or isinstance(t[0][1], Exc):
                raise Unsupported("any/all")
            c = zbool(t[0][1])
            rng = z3.And(0 <= j, j < it.n)
            if every:
                return [(s, B(forall(j, z3.Implies(rng, c))))]
            return [(s, B(exists(j, z3.And(rng, c))))]
        return self.bind(self.iters(st, args), f)

    def bi_all(self, st, args, kw, e):
        return self.bi_any(st, args, kw, e, True)

    def bi_map(self, st, args, kw, e):
        f, seqs = args[0], args[1:]
        line = e.line if e is not None else None
        if isinstance(f, NoneV) and len(seqs) == 1:
            return self.to_list(st, seqs[0])
        names = ["__mp%d_%s" % (i, fresh_name("m")) for i in range(len(seqs))]
        fn_ = "__mf" + fresh_name("f")
        s = st.copy()
        s.env[fn_] = f
        if len(seqs) == 1:
            it = names[0] + "_it"
            s.env[it] = seqs[0]
            target = N("Name", line, id=names[0])
        else:
            it = names[0] + "_it"
            r = self.bi_zip(s, seqs, {}, e)
            if len(r) != 1 or isinstance(r[0][1], Exc):
                raise Unsupported("map")
            s = r[0][0]
            s.env[it] = r[0][1]
            target = N("Tuple", line, elts=[N("Name", line, id=n) for n in names])
        lc = N("ListComp", line, elt=N(
            "Call", line, func=N("Name", line, id=fn_),
            args=[N("Name", line, id=n) for n in names], keywords=[],
            starargs=None, kwargs=None),
            generators=[N("comprehension", line, target=target,
                          iter=N("Name", line, id=it), ifs=[])])
        out = self.ev_ListComp(s, lc, leak=False)
        for s2, v in out:
            for n in [fn_, it]:
                s2.env.pop(n, None)
        return out

    bi_itertools_imap = bi_map

    def bi_filter(self, st, args, kw, e):
        f, seq = args
        line = e.line if e is not None else None
        nm, it, fn_ = fresh_name("__fx"), fresh_name("__fi"), fresh_name("__ff")
        s = st.copy()
        s.env[it] = seq
        test = N("Name", line, id=nm)
        if not isinstance(f, NoneV):
            s.env[fn_] = f
            test = N("Call", line, func=N("Name", line, id=fn_),
                     args=[test], keywords=[], starargs=None, kwargs=None)
        lc = N("ListComp", line, elt=N("Name", line, id=nm),
               generators=[N("comprehension", line, target=N("Name", line, id=nm),
                             iter=N("Name", line, id=it), ifs=[test])])
        out = self.ev_ListComp(s, lc, leak=False)
        for s2, v in out:
            for n in [fn_, it]:
                s2.env.pop(n, None)
        return out

    def bi_reduce(self, st, args, kw, e):
        def f(s, its):
            it = its[0]
            if it.items is None:
                # symbolic: run as a loop
                return self.reduce_loop(s, args, e)
            xs = list(it.items)
            if len(args) > 2:
                xs.insert(0, args[2])
            if not xs:
                return [(s, Exc("TypeError", None, e.line if e else None))]
            outs = [(s, xs[0])]
            for x in xs[1:]:
                outs = self.bind(outs, lambda s2, a: self.call(s2, args[0], [a, x], {}, e))
            return outs
        return self.bind(self.iters(st, args[1:2]), f)

    def reduce_loop(self, st, args, e):
        if len(args) < 3:
            raise Unsupported("reduce without initial value")
        line = e.line if e is not None else None
        acc, x, it, fn_ = [fresh_name("__r" + c) for c in "axif"]
        st.env[acc], st.env[it], st.env[fn_] = args[2], args[1], args[0]
        loop = N("For", line, target=N("Name", line, id=x), iter=N("Name", line, id=it),
                 body=[N("Assign", line, targets=[N("Name", line, id=acc)], value=N(
                     "Call", line, func=N("Name", line, id=fn_),
                     args=[N("Name", line, id=acc), N("Name", line, id=x)],
                     keywords=[], starargs=None, kwargs=None))], orelse=[])
        out = []
        for s, o in self.block(st, [loop]):
            v = o[1] if o[0] == "x" else s.env[acc]
            for n in (acc, x, it, fn_):
                s.env.pop(n, None)
            out.append((s, v))
        return out

    def bi_sorted(self, st, args, kw, e):
        def f(s, l):
            return [(s2, x if isinstance(x, Exc) else l) for s2, x in
                    self.call_method(s, l, "sort", list(args[1:]), kw, e)]
        return self.bind(self.to_list(st, args[0]), f)

    def bi_isinstance(self, st, args, kw, e):
        v, c = args
        cs = c.items if isinstance(c, Tupl) else [c]
        if isinstance(v, T) and v.ty.k == "opt":
            r = v.ty._dt()[4](v.t)
            a, b = self.branch(st, r)
            out = []
            if a is not None:
                out.append((a, B(False)))
            if b is not None:
                out.extend(self.bi_isinstance(b, [self.dec(
                    v.ty.args[0], v.ty.get(0, v.t)), c], kw, e))
            return out
        res = []
        for x in cs:
            res.append(self.isinst(st, v, x))
        if any(r is True for r in res):
            return [(st, B(True))]
        return [(st, B(zor(*res)))]

    def isinst(self, st, v, c):
        name = c.info if isinstance(c, Cls) else getattr(c, "name", None)
        if name is None:
            raise Unsupported("isinstance")
        if isinstance(v, ModelV):
            return v.model.isinstance(self, st, v, c)
        if isinstance(v, T) and "isinstance:" + v.ty.key in self.models:
            return self.models["isinstance:" + v.ty.key](self, st, v, c)
        if isinstance(v, Ref) and st.place(v).kind == "obj":
            m = self.mro(st.place(v).cls)
            return any(x is name or x == name for x in m) or name == "object"
        if isinstance(v, ExcV):
            return exc_isa(v.cls, name if isinstance(name, str) else name.name)
        if isinstance(name, ClassInfo):
            return isinstance(v, T) and v.ty.k == "op" and v.ty.args[0] == name.name
        if isinstance(v, SliceV):
            return name == "slice"
        k = self.kind_of(st, v)
        py = {"str": ("str", "basestring", "unicode"), "list": ("list",),
              "tuple": ("tuple",), "dict": ("dict",), "set": ("set", "frozenset")}
        if k in py:
            return name in py[k] or name == "object"
        if isinstance(v, T):
            if v.ty == INT:
                return name in ("int", "long")
            if v.ty == REAL:
                return name == "float"
            if v.ty == BOOL:
                return name in ("int", "bool")
            if v.ty.k == "op":
                f = fun("isinstance_%s_%s" % (name, v.ty.key), v.ty.sort, z3.BoolSort())
                return f(v.t)
        if isinstance(v, (NoneV, Fn, Bound, Builtin)):
            return False
        raise Unsupported("isinstance of %r" % (v,))

    def bi_type(self, st, args, kw, e):
        v = args[0]
        if isinstance(v, Ref) and st.place(v).kind == "obj":
            return [(st, Cls(st.place(v).cls))]
        k = self.kind_of(st, v)
        if k in ("list", "tuple", "str", "dict", "set"):
            return [(st, Builtin(k))]
        if isinstance(v, T) and v.ty in (INT, REAL, BOOL):
            return [(st, Builtin({"int": "int", "real": "float", "bool": "bool"}[v.ty.k]))]
        raise Unsupported("type of %r" % (v,))

    def bi_getattr(self, st, args, kw, e):
        if not isinstance(args[1], PStr):
            raise Unsupported("getattr with a computed name")
        out = []
        for s, r in self.getattr_(st, args[0], args[1].s, e):
            if isinstance(r, Exc) and r.cls == "AttributeError" and len(args) > 2:
                out.append((s, args[2]))
            else:
                out.append((s, r))
        return out

    def bi_setattr(self, st, args, kw, e):
        if not isinstance(args[1], PStr):
            raise Unsupported("setattr with a computed name")
        return [(s, r if r is not None else NONE) for s, r in
                self.setattr_(st, args[0], args[1].s, args[2], e)]

    def bi_math_sqrt(self, st, args, kw, e):
        n = self.num(st, args[0])
        TH.add("sqrt", sqrt_ax)
        t = self.enc(st, n, REAL)
        out = []
        a, b = self.branch(st, t >= 0)
        if a is not None:
            out.append((a, T(REAL, SQRT(t))))
        if b is not None:
            out.append((b, Exc("ValueError", None, e.line if e else None)))
        return out

    def bi_math_log(self, st, args, kw, e):
        TH.add("log", log_ax)
        n = self.num(st, args[0])
        t = self.enc(st, n, REAL)
        out = []
        a, b = self.branch(st, t > 0)
        if b is not None:
            out.append((b, Exc("ValueError", None, e.line if e else None)))
        if a is not None:
            if len(args) == 1:
                out.append((a, T(REAL, LOG(t))))
            else:
                out.extend(self.arith(a, "Div", T(REAL, LOG(t)), T(REAL, LOG(
                    self.enc(a, self.num(a, args[1]), REAL))), e))
        return out

    def bi_copy_copy(self, st, args, kw, e):
        v = args[0]
        if isinstance(v, Ref):
            p = st.place(v).copy()
            if p.kind == "obj":
                m = self.find_method(p.cls, "__copy__")
                if m is not None:
                    return self.call(st, Bound(v, m), [], {}, e)
                for f in ("__list__", "__dict__"):
                    if f in p.fields:
                        q = st.place(p.fields[f]).copy()
                        q.escaped = False
                        p.fields[f] = st.alloc(q)
            p.escaped = False
            return [(st, st.alloc(p))]
        if isinstance(v, DictV):
            return [(st, st.alloc(DictP(kty=v.kty, vty=v.vty, dom=v.dom, mp=v.mp,
                                        dkind=v.kind)))]
        if isinstance(v, SetV):
            return [(st, st.alloc(SetP(ety=v.ety, arr=v.arr)))]
        return [(st, v)]

    def bi_copy_deepcopy(self, st, args, kw, e):
        memo = {}

        def go(v):
            if isinstance(v, Ref):
                if v.pid in memo:
                    return memo[v.pid]
                p = st.place(v).copy()
                p.escaped = p.shared = False
                r = memo[v.pid] = st.alloc(p)
                if p.kind == "obj":
                    if self.find_method(p.cls, "__deepcopy__") is not None:
                        raise Unsupported("__deepcopy__")
                    for f, x in list(p.fields.items()):
                        p.fields[f] = go(x)
                elif p.items is not None:
                    if p.kind == "dict":
                        for k, x in list(p.items.items()):
                            p.items[k] = go(x)
                    else:
                        p.items = [go(x) for x in p.items]
                return r
            if isinstance(v, Tupl):
                return Tupl([go(x) for x in v.items])
            if isinstance(v, ModelV) and hasattr(v.model, "deepcopy"):
                return v.model.deepcopy(self, st, v)
            return v
        return [(st, go(args[0]))]

    # ---- library functions kept uninterpreted (pure)
    def pure_lib(self, st, name, args, rty, exc=None):
        try:
            tys = [self.type_of(st, a) for a in args]
            f = fun("lib_" + name.replace(".", "_") + "_" + "_".join(t.key for t in tys),
                    *([t.sort for t in tys] + [rty.sort]))
            return [(st, self.dec(rty, f(*[self.enc(st.copy(), a, t)
                                           for a, t in zip(args, tys)])))]
        except Unsupported:
            return [(st, self.dec(rty, z3.Const(fresh_name("lib"), rty.sort)))]

    def bi_os_path_join(self, st, args, kw, e):
        if all(isinstance(a, PStr) for a in args):
            import posixpath
            return [(st, PStr(posixpath.join(*[a.s for a in args])))]
        return self.pure_lib(st, "os.path.join", args, STR)

    def _strlib(nm, rty=STR):
        def f(self, st, args, kw, e):
            return self.pure_lib(st, nm, args, rty)
        return f

    bi_os_path_basename = _strlib("os.path.basename")
    bi_os_path_dirname = _strlib("os.path.dirname")
    bi_os_path_abspath = _strlib("os.path.abspath")
    bi_os_path_normpath = _strlib("os.path.normpath")
    bi_os_path_realpath = _strlib("os.path.realpath")
    bi_os_path_exists = _strlib("os.path.exists", BOOL)
    bi_os_path_isdir = _strlib("os.path.isdir", BOOL)
    bi_os_path_isfile = _strlib("os.path.isfile", BOOL)
    bi_os_path_relpath = _strlib("os.path.relpath")
    bi_os_path_expanduser = _strlib("os.path.expanduser")

    # ------------------------------------------------------------ methods
    def call_method(self, st, b, name, args, kw, e):
        line = e.line if e is not None else None
        if isinstance(b, ModelV):
            return b.model.method(self, st, b, name, args, kw, e)
        if isinstance(b, Ref) and st.place(b).kind == "obj":
            m = self.find_method(st.place(b).cls, name)
            if m is not None:
                return self.call(st, Bound(b, m), args, kw, e)
            p = st.place(b)
            for f in ("__list__", "__dict__"):
                if f in p.fields:
                    return self.call_method(st, p.fields[f], name, args, kw, e)
        k = self.kind_of(st, b)
        if k is None and isinstance(b, (Tupl,)):
            k = "tuple"
        m = getattr(self, "m_%s_%s" % (k, name), None)
        if m is None:
            if name in ("__len__",):
                return self.bi_len(st, [b], kw, e)
            if name == "__getitem__":
                return self.getitem(st, b, args[0], e)
            if name == "__setitem__":
                return [(s, r if isinstance(r, Exc) else NONE) for s, r in
                        self.setitem(st, b, args[0], args[1], e)]
            if name == "__delitem__":
                return [(s, r if isinstance(r, Exc) else NONE) for s, r in
                        self.delitem(st, b, args[0], e)]
            if name == "__contains__":
                return self.bind(self.contains(st, b, args[0]),
                                 lambda s, c: [(s, B(c))])
            if name == "__iter__":
                return self.bi_iter(st, [b], kw, e)
            if name == "__eq__":
                return self.bind(self.eq(st, b, args[0]), lambda s, c: [(s, B(c))])
            if name == "__ne__":
                return self.bind(self.eq(st, b, args[0]),
                                 lambda s, c: [(s, B(znot(c)))])
            if name == "__repr__" or name == "__str__":
                return self.bi_repr(st, [b], kw, e)
            if name == "__add__":
                return self.binop(st, "Add", b, args[0], e)
            if name == "__mul__":
                return self.binop(st, "Mult", b, args[0], e)
            if name == "__getslice__":
                return self.getitem(st, b, SliceV(args[0], args[1], None), e)
            if name == "__setslice__":
                return [(s, r if isinstance(r, Exc) else NONE) for s, r in
                        self.setitem(st, b, SliceV(args[0], args[1], None), args[2], e)]
            if name == "__delslice__":
                return [(s, r if isinstance(r, Exc) else NONE) for s, r in
                        self.delitem(st, b, SliceV(args[0], args[1], None), e)]
            if name == "__iadd__":
                return self.bind(self.call_method(st, b, "extend", args, kw, e),
                                 lambda s, r: [(s, b)])
            if k in ("list", "dict", "tuple", "set") and not hasattr(
                    {"list": list, "dict": dict, "tuple": tuple, "set": set}[k], name) \
                    and name not in ("has_key", "iterkeys", "itervalues", "iteritems"):
                return [(st, Exc("AttributeError", PStr(name), line))]
            raise Unsupported("method %s of %s" % (name, k))
        return m(st, b, args, kw, e)

    # ---- list
    def m_list___init__(self, st, b, args, kw, e):
        if not args:
            return [(st, NONE)]
        return self.m_list_extend(st, b, args, kw, e)

    def m_list_append(self, st, b, args, kw, e):
        if isinstance(b, SeqV):
            return self.nested_list_op(st, b, lambda arr, ln, ety: (
                z3.Store(arr, ln, self.enc(st, args[0], ety)), ln + 1))
        self.list_append(st, b, args[0])
        return [(st, NONE)]

    def nested_list_op(self, st, b, f):
        """mutation of a list that is an element of another container"""
        path = getattr(b, "path", None)
        if path is None:
            raise Unsupported("mutation of a list value of unknown origin")
        arr, ln = f(b.arr, b.ln, b.ety)
        self.write_back(st, path, SeqV(b.ety, arr, ln, "list"))
        return [(st, NONE)]

    def m_list_extend(self, st, b, args, kw, e):
        def f(s, its):
            it = its[0]
            ref = self.listref(s, b)
            if ref is None:
                raise Unsupported("extend of a nested list")
            if it.items is not None:
                for x in it.items:
                    self.list_append(s, ref, x)
                return [(s, NONE)]
            l = self.materialize(s, it)
            p = s.place(ref)
            ety = self.seq_ty(s, l)
            arr, ln = self.as_arr(s, l)
            if p.items is not None and not p.items:
                q = s.mutate(ref)
                q.items, q.ety, q.arr, q.ln = None, ety, arr, ln
                return [(s, NONE)]
            q = self.sym_list(s, ref, ety)
            arr, ln = self.as_arr(s, l, q.ety)
            q = s.mutate(ref)
            q.arr = concat_fn(q.ety)(q.arr, q.ln, arr)
            q.ln = q.ln + ln
            return [(s, NONE)]
        return self.bind(self.iters(st, args), f)

    def m_list_insert(self, st, b, args, kw, e):
        ref = self.listref(st, b)
        i, x = args
        p = st.place(ref)
        c = const_int(i)
        if p.items is not None and c is not None:
            q = st.mutate(ref)
            q.items.insert(c, x)
            return [(st, NONE)]
        p = self.sym_list(st, ref, self.type_of(st, x))
        n = self.clamp(st, i, p.ln, None)
        q = st.mutate(ref)
        q.arr = insert_fn(q.ety)(q.arr, n, self.enc(st, x, q.ety))
        q.ln = q.ln + 1
        return [(st, NONE)]

    def m_list_pop(self, st, b, args, kw, e):
        ref = self.listref(st, b)
        if ref is None:
            raise Unsupported("pop of a nested list")
        p = st.place(ref)
        i = args[0] if args else I(-1)
        line = e.line if e is not None else None
        if isinstance(i, NoneV):
            return [(st, Exc("TypeError", None, line))]
        if p.items is not None:
            c = const_int(i)
            if c is None:
                if not p.items:
                    return [(st, Exc("IndexError", None, line))]
                p = self.sym_list(st, ref)
            elif not -len(p.items) <= c < len(p.items):
                return [(st, Exc("IndexError", None, line))]
            else:
                q = st.mutate(ref)
                return [(st, q.items.pop(c))]
        out = []
        for s, j in self.index_cases(st, self.num(st, i), p.ln, line):
            if isinstance(j, Exc):
                out.append((s, j))
                continue
            q = s.mutate(ref)
            x = self.dec(q.ety, q.arr[j])
            last = self.entails(s, j == q.ln - 1)
            if not last:
                q.arr = delete_fn(q.ety)(q.arr, j)
            q.ln = q.ln - 1
            out.append((s, x))
        return out

    def m_list_remove(self, st, b, args, kw, e):
        ref = self.listref(st, b)

        def f(s, i):
            return [(s2, r if isinstance(r, Exc) else NONE) for s2, r in
                    self.delitem(s, ref, i, e)]
        return self.bind(self.m_list_index(st, ref, args, kw, e), f)

    def m_list_index(self, st, b, args, kw, e):
        line = e.line if e is not None else None
        items = self.conc_items(st, b)
        if items is not None:
            out = []
            cur = st
            for i, x in enumerate(items):
                y, n = self.branch(cur, zbool(self.eq1(cur, x, args[0])))
                if y is not None:
                    out.append((y, I(i)))
                if n is None:
                    return out
                cur = n
            out.append((cur, Exc("ValueError", None, line)))
            return out
        ety = self.seq_ty(st, b)
        arr, ln = self.as_arr(st, b)
        t = self.enc(st, args[0], ety)
        w = z3.Int(fresh_name("idx"))
        j = z3.Int(fresh_name("j"))
        out = []
        has, no = self.branch(st, elems_fn(ety)(arr, ln)[t])
        if has is not None:
            has.assume(z3.And(0 <= w, w < ln, self.teq(ety, arr[w], t)))
            has.assume(forall(j, z3.Implies(z3.And(0 <= j, j < w),
                                            z3.Not(self.teq(ety, arr[j], t))), [arr[j]]))
            out.append((has, T(INT, w)))
        if no is not None:
            out.append((no, Exc("ValueError", None, line)))
        return out

    m_tuple_index = m_list_index

    def m_list_count(self, st, b, args, kw, e):
        items = self.conc_items(st, b)
        if items is not None:
            t = z3.IntVal(0)
            for x in items:
                t = t + z3.If(zbool(self.eq1(st, x, args[0])), 1, 0)
            return [(st, T(INT, z3.simplify(t)))]
        ety = self.seq_ty(st, b)
        arr, ln = self.as_arr(st, b)
        return [(st, T(INT, count_fn(ety)(arr, ln, self.enc(st, args[0], ety))))]

    m_tuple_count = m_list_count

    def m_list_reverse(self, st, b, args, kw, e):
        ref = self.listref(st, b)
        q = st.mutate(ref)
        if q.items is not None:
            q.items.reverse()
        else:
            q.arr = rev_fn(q.ety)(q.arr, q.ln)
        return [(st, NONE)]

    def m_list_sort(self, st, b, args, kw, e):
        ref = self.listref(st, b)
        if kw or args:
            h = self.models.get("sort")
            if h is not None:
                return h(self, st, ref, args, kw, e)
            raise Unsupported("sort with a key")
        p = st.place(ref)
        if p.items is not None:
            cs = [const_key(x) for x in p.items]
            if all(c is not None for c in cs) and len(set(c[0] for c in cs)) <= 1:
                q = st.mutate(ref)
                q.items = [key_val(c) for c in sorted(cs)]
                return [(st, NONE)]
            if len(p.items) <= 1:
                return [(st, NONE)]
            p = self.sym_list(st, ref)
        q = st.mutate(ref)
        ety = q.ety
        f = sorted_fn(ety, lambda a, b: zbool(self.less(
            st, self.dec(ety, a), self.dec(ety, b), False)))
        q.arr = f(q.arr, q.ln)
        return [(st, NONE)]

    # ---- dict
    def m_dict___init__(self, st, b, args, kw, e):
        return self.m_dict_update(st, b, args, kw, e)

    def m_dict_update(self, st, b, args, kw, e):
        ref = self.dictref(st, b)
        outs = [(st, NONE)]
        if args:
            a = args[0]
            if isinstance(a, NoneV):
                return [(st, Exc("TypeError", None, e.line if e else None))]
            ar = self.dictref(st, a)
            if ar is not None and st.place(ar).items is not None:
                for k, v in list(st.place(ar).items.items()):
                    if ref is None:
                        outs = self.bind(outs, lambda s, _: [
                            (s2, r if isinstance(r, Exc) else NONE) for s2, r in
                            self.setitem(s, b, key_val(k), v, e)])
                    else:
                        self.dict_set(st, ref, key_val(k), v)
            elif ar is not None or isinstance(a, DictV):
                if isinstance(a, DictV):
                    kty, vty, dom, mp, order = a.kty, a.vty, a.dom, a.mp, None
                else:
                    q = st.place(ar)
                    kty, vty, dom, mp, order = q.kty, q.vty, q.dom, q.mp, q.order
                if ref is None:
                    b = self.refresh(st, b)
                    if not isinstance(b, DictV) or (b.kty, b.vty) != (kty, vty):
                        raise Unsupported("update of a nested dict")
                    md = z3.Const(fresh_name("dom"), b.dom.sort())
                    mm = z3.Const(fresh_name("map"), b.mp.sort())
                    x = z3.Const(fresh_name("x"), b.kty.sort)
                    st.assume(forall(x, md[x] == z3.Or(b.dom[x], dom[x]), [md[x]]))
                    st.assume(forall(x, mm[x] == z3.If(dom[x], mp[x], b.mp[x]), [mm[x]]))
                    self.write_back(st, b.path, DictV(b.kty, b.vty, md, mm, b.kind, b.path))
                    return [(st, NONE)]
                p = st.place(ref)
                if p.items is not None and not p.items and p.dkind != "odict":
                    q = st.mutate(ref)
                    q.items, q.kty, q.vty, q.dom, q.mp = None, kty, vty, dom, mp
                else:
                    self.sym_dict(st, ref, kty, vty)
                    if st.place(ref).order is not None:
                        raise Unsupported("update of ordered dict")
                    q = st.mutate(ref)
                    md = z3.Const(fresh_name("dom"), q.dom.sort())
                    mm = z3.Const(fresh_name("map"), q.mp.sort())
                    x = z3.Const(fresh_name("x"), q.kty.sort)
                    st.assume(forall(x, md[x] == z3.Or(q.dom[x], dom[x]), [md[x]]))
                    st.assume(forall(x, mm[x] == z3.If(dom[x], mp[x], q.mp[x]), [mm[x]]))
                    q.dom, q.mp = md, mm
            else:
                # iterable of pairs
                line = e.line if e is not None else None
                it, k_, v_, d_ = [fresh_name("__u" + c) for c in "ikvd"]
                st.env[it], st.env[d_] = a, b
                loop = N("For", line, target=N("Tuple", line, elts=[
                    N("Name", line, id=k_), N("Name", line, id=v_)]),
                    iter=N("Name", line, id=it), body=[N("Assign", line, targets=[
                        N("Subscript", line, value=N("Name", line, id=d_),
                          slice=N("Index", line, value=N("Name", line, id=k_)))],
                        value=N("Name", line, id=v_))], orelse=[])
                outs = []
                for s, o in self.block(st, [loop]):
                    for n in (it, k_, v_, d_):
                        s.env.pop(n, None)
                    outs.append((s, o[1] if o[0] == "x" else NONE))
        for k, v in kw.items():
            for s, r in outs:
                if not isinstance(r, Exc):
                    self.dict_set(s, ref, PStr(k), v)
        return outs

    def m_dict_get(self, st, b, args, kw, e):
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, v in self.dict_get(st, b, args[0], None):
            if isinstance(v, Exc) and v.cls == "KeyError":
                out.append((s, d))
            else:
                out.append((s, v))
        return out

    def m_dict_has_key(self, st, b, args, kw, e):
        return self.bind(self.contains(st, b, args[0]), lambda s, c: [(s, B(c))])

    def dict_parts(self, st, b):
        """(kty, vty, dom, mp, order arr, len) symbolic"""
        if isinstance(b, DictV):
            en = enum_fn(b.kty)(b.dom)
            return b.kty, b.vty, b.dom, b.mp, en, card_fn(b.kty)(b.dom)
        p = st.place(self.dictref(st, b))
        arr, ln = self.dict_order(p)
        return p.kty, p.vty, p.dom, p.mp, arr, ln

    def m_dict_keys(self, st, b, args, kw, e):
        r = self.dictref(st, b)
        if r is not None and st.place(r).items is not None:
            return [(st, self.new_list(st, [key_val(k) for k in st.place(r).items]))]
        kty, vty, dom, mp, arr, ln = self.dict_parts(st, b)
        st.assume(ln >= 0)
        l = self.new_symlist(st, kty, arr, ln)
        st.place(l).keyset = (kty, dom)
        return [(st, l)]

    def _values(self, st, b):
        r = self.dictref(st, b)
        if r is not None and st.place(r).items is not None:
            return self.new_list(st, list(st.place(r).items.values()))
        kty, vty, dom, mp, arr, ln = self.dict_parts(st, b)
        f = fun("values_%s_%s" % (kty.key, vty.key), arr.sort(), mp.sort(),
                arr_sort(vty))

        def mk():
            a, m = z3.Const("a", arr.sort()), z3.Const("m", mp.sort())
            i = z3.Int("i")
            return [forall([a, m, i], f(a, m)[i] == m[a[i]], [f(a, m)[i]]),
                    forall([a, m, i], f(a, m)[i] == m[a[i]], [z3.MultiPattern(f(a, m), a[i])])]
        TH.add(f.name(), mk)
        st.assume(ln >= 0)
        self.keep(st, f(arr, mp))
        l = self.new_symlist(st, vty, f(arr, mp), ln)
        st.place(l).shared = self.mutable_ty(vty)
        return l

    def m_dict_values(self, st, b, args, kw, e):
        return [(st, self._values(st, b))]

    def m_dict_itervalues(self, st, b, args, kw, e):
        return self.bi_iter(st, [self._values(st, b)], kw, e)

    def m_dict_iterkeys(self, st, b, args, kw, e):
        return self.bi_iter(st, [b], kw, e)

    def m_dict_iteritems(self, st, b, args, kw, e):
        r = self.dictref(st, b)
        if r is not None and st.place(r).items is not None:
            return [(st, self.new_list(st, [Tupl([key_val(k), v]) for k, v in
                                            st.place(r).items.items()]))]
        kty, vty, dom, mp, arr, ln = self.dict_parts(st, b)
        st.assume(ln >= 0)
        it = It(ln, lambda k: Tupl([self.dec(kty, arr[k]), self.dec(
            vty, mp[arr[k]], self.mkpath(st, "dict", b, arr[k]))]), None, b, "items",
            (r.pid,) if r is not None else (), key=lambda k: arr[k])
        it.facts = lambda k: [dom[arr[k]]]
        return [(st, IterV(it))]

    def m_dict_items(self, st, b, args, kw, e):
        r = self.m_dict_iteritems(st, b, args, kw, e)
        v = r[0][1]
        if isinstance(v, IterV):
            v.it.pids = ()
        return r

    def m_dict_setdefault(self, st, b, args, kw, e):
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, v in self.dict_get(st, b, args[0], None):
            if isinstance(v, Exc):
                if isinstance(d, Ref):
                    # the stored object stays reachable through d
                    pass
                for s2, r in self.setitem(s, b, args[0], d, e):
                    if r is not None:
                        out.append((s2, r))
                    else:
                        out.extend(self.getitem(s2, b, args[0], e))
            else:
                out.append((s, v))
        return out

    def m_dict_pop(self, st, b, args, kw, e):
        out = []
        for s, v in self.dict_get(st, b, args[0], e.line if e is not None else None):
            if isinstance(v, Exc):
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    out.append((s, v))
                continue
            for s2, r in self.delitem(s, b, args[0], e):
                out.append((s2, v if r is None else r))
        return out

    def m_dict_clear(self, st, b, args, kw, e):
        ref = self.dictref(st, b)
        q = st.mutate(ref)
        q.items, q.kty, q.vty, q.dom, q.mp, q.order = {}, None, None, None, None, None
        return [(st, NONE)]

    def m_dict_copy(self, st, b, args, kw, e):
        return self.bi_copy_copy(st, [b if self.dictref(st, b) is None else
                                      self.dictref(st, b)], kw, e)

    # ---- set
    def m_set_add(self, st, b, args, kw, e):
        if isinstance(b, SetV):
            self.write_back(st, b.path, SetV(b.ety, z3.Store(
                b.arr, self.enc(st, args[0], b.ety), z3.BoolVal(True))))
            card_fn(b.ety)
            return [(st, NONE)]
        self.set_add(st, b, args[0])
        return [(st, NONE)]

    def set_del(self, st, b, x):
        if isinstance(b, SetV):
            self.write_back(st, b.path, SetV(b.ety, z3.Store(
                b.arr, self.enc(st, x, b.ety), z3.BoolVal(False))))
            return
        self.sym_set(st, b, self.type_of(st, x))
        q = st.mutate(b)
        q.arr = z3.Store(q.arr, self.enc(st, x, q.ety), z3.BoolVal(False))

    def m_set_discard(self, st, b, args, kw, e):
        self.set_del(st, b, args[0])
        return [(st, NONE)]

    def m_set_remove(self, st, b, args, kw, e):
        out = []
        for s, c in self.contains(st, b, args[0]):
            y, n = self.branch(s, zbool(c))
            if n is not None:
                out.append((n, Exc("KeyError", None, e.line if e else None)))
            if y is not None:
                self.set_del(y, b, args[0])
                out.append((y, NONE))
        return out

    def set_pair(self, st, a, b):
        def f(s, vs):
            x, y = vs
            t = self.join(self.type_of(s, x), self.type_of(s, y))
            if not self.known(t):
                return [(s, None)]
            e = t.args[0]
            return [(s, (e, self.as_set(s, x, e), self.as_set(s, y, e)))]
        return self.bind(self.bind(self.bi_set(st, [b], {}, None),
                                   lambda s, y: [(s, [a, y])]), f)

    def set_op(self, st, b, args, opf):
        outs = [(st, b)]
        for a in args:
            def f(s, cur):
                def g(s2, t):
                    if t is None:
                        return [(s2, s2.alloc(SetP(items=[])))]
                    ety, x, y = t
                    return [(s2, s2.alloc(SetP(ety=ety, arr=opf(ety)(x, y))))]
                return self.bind(self.set_pair(s, cur, a), g)
            outs = self.bind(outs, f)
        return outs

    def m_set_intersection(self, st, b, args, kw, e):
        return self.set_op(st, b, args, inter_fn)

    def m_set_union(self, st, b, args, kw, e):
        return self.set_op(st, b, args, union_fn)

    def m_set_difference(self, st, b, args, kw, e):
        return self.set_op(st, b, args, diff_fn)

    def m_set_copy(self, st, b, args, kw, e):
        return self.bi_set(st, [b], kw, e)

    def m_set_update(self, st, b, args, kw, e):
        return self.set_inplace(st, b, args, union_fn)

    def m_set_intersection_update(self, st, b, args, kw, e):
        return self.set_inplace(st, b, args, inter_fn)

    def m_set_difference_update(self, st, b, args, kw, e):
        return self.set_inplace(st, b, args, diff_fn)

    def set_inplace(self, st, b, args, opf):
        out = []
        for s, r in self.set_op(st, b, args, opf):
            if isinstance(r, Exc):
                out.append((s, r))
                continue
            p = s.place(r)
            if isinstance(b, SetV):
                self.write_back(s, b.path, SetV(p.ety, p.arr))
            else:
                q = s.mutate(b)
                q.items, q.ety, q.arr = (list(p.items) if p.items is not None else None,
                                         p.ety, p.arr)
            out.append((s, NONE))
        return out

    def m_set_issubset(self, st, b, args, kw, e):
        def f(s, t):
            if t is None:
                return [(s, B(True))]
            ety, x, y = t
            v = z3.Const(fresh_name("x"), ety.sort)
            return [(s, B(forall(v, z3.Implies(x[v], y[v]))))]
        return self.bind(self.set_pair(st, b, args[0]), f)

    # ---- str
    STRBOOL = ("startswith", "endswith", "isdigit", "isalpha", "isupper",
               "islower", "istitle", "isspace", "isalnum")
    STRSTR = ("lower", "upper", "strip", "lstrip", "rstrip", "replace",
              "capitalize", "title", "encode", "decode", "ljust", "rjust",
              "center", "zfill", "format")

    def call_str(self, st, b, name, args, kw, e):
        pa = [self.pyconst(a) for a in args]
        if isinstance(b, PStr) and all(a is not None for a in pa) and not kw:
            try:
                r = getattr(b.s, name)(*[a[0] for a in pa])
            except Exception:
                r = None
            w = self.wrap_py(st, r)
            if w is not None and name not in ("encode", "decode"):
                return [(st, w)]
        if name in self.STRBOOL:
            return self.pure_lib(st, "str." + name, [b] + list(args), BOOL)
        if name in self.STRSTR:
            return self.pure_lib(st, "str." + name, [b] + list(args), STR)
        if name == "find":
            return self.pure_lib(st, "str.find", [b] + list(args), INT)
        if name in ("split", "splitlines"):
            r = self.pure_lib(st, "str." + name, [b] + list(args), SEQ(STR, "list"))
            out = []
            for s, v in r:
                s.assume(v.ln >= (1 if args else 0))
                out.append((s, self.new_symlist(s, STR, v.arr, v.ln)))
            return out
        if name == "join":
            def f(s, l):
                p = s.place(l)
                if p.items is not None and isinstance(b, PStr) and all(
                        isinstance(x, PStr) for x in p.items):
                    return [(s, PStr(b.s.join(x.s for x in p.items)))]
                ety = self.seq_ty(s, l)
                if not self.known(ety):
                    return [(s, PStr(""))]
                if p.items and ety == STR and len(p.items) <= 20:
                    # a fixed number of strings
                    out = [(s, p.items[0])]
                    for x in p.items[1:]:
                        out = [r for s2, v in out for r in (
                            self.bind(self.binop(s2, "Add", v, b, e), lambda s3, w: self.binop(s3, "Add", w, x, e))
                            if not (isinstance(b, PStr) and b.s == "") else self.binop(s2, "Add", v, x, e))]
                    return out
                arr, ln = self.as_arr(s, l)
                if isinstance(b, PStr) and b.s == "" and self.cur is not None and \
                        self.cur.char_ty == ety:
                    # the elements are single characters
                    return [(s, SeqV(ety, arr, ln, "str"))]
                fn = fun("str_join_" + ety.key, STR.sort, arr.sort(), z3.IntSort(),
                         STR.sort)
                return [(s, T(STR, fn(self.enc(s, b, STR), arr, ln)))]
            return self.bind(self.to_list(st, args[0]), f)
        if name == "count" or name == "index":
            return self.pure_lib(st, "str." + name, [b] + list(args), INT)
        raise Unsupported("string method " + name)

    def wrap_py(self, st, r):
        if isinstance(r, bool):
            return B(r)
        if isinstance(r, int):
            return I(r)
        if isinstance(r, str):
            return PStr(r)
        if isinstance(r, list) and all(isinstance(x, str) for x in r):
            return self.new_list(st, [PStr(x) for x in r])
        return None

    def __getattr__(self, name):
        if name.startswith("m_str_"):
            meth = name[6:]
            return lambda st, b, args, kw, e: self.call_str(st, b, meth, args, kw, e)
        raise AttributeError(name)


class FieldsOf(object):
    """the __dict__ of an object, as keyword arguments"""


def count_fn(ety):
    """occurrences of x among the first n entries"""
    A = arr_sort(ety)
    f = fun("count_" + ety.key, A, z3.IntSort(), ety.sort, z3.IntSort())

    def mk():
        a = z3.Const("a", A)
        n = z3.Int("n")
        x = z3.Const("x", ety.sort)
        return [forall([a, n, x], f(a, n, x) == z3.If(
            n <= 0, 0, f(a, n - 1, x) + z3.If(a[n - 1] == x, 1, 0)), [f(a, n, x)])]
    TH.add("count_" + ety.key, mk)
    return f
