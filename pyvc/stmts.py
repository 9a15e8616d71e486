"""Statements and loops."""
import time
import os
import z3

from .vals import *
from . import vals
from .src import Node, FuncInfo, ClassInfo, walk
from .engine import *
from .engine import limit
from .engine import (arr_sort, slice_fn, concat_fn, rev_fn, insert_fn,
                     delete_fn, const_arr, range_arr, sum_fn, elems_fn,
                     card_fn, enum_fn, fun, empty_arr, TH)
from .calls import ExcV, N


class LoopInfo(object):
    """a cut loop, as seen by the candidate generators of a contract"""

    def __init__(self, eng, node, it, entry, k):
        self.eng = eng
        self.node = node
        self.it = it            # It, or None for a while loop
        self.n = it.n if it is not None else None
        self.entry = entry      # state at loop entry
        self.k = k              # iteration counter of the head state
        self.vars = {}          # modified variables: name -> Ty
        self.head = None        # havocked state at the loop head
        self.outer = None
        self.comp = getattr(node, "comp", None)
        self.fn = entry.env.get("__function__")
        self.depth = 0

    def stable(self, name):
        return name in self.head.env and name not in self.vars


class Stmts(object):

    def block(self, st, stmts):
        outs = [(st, ("n",))]
        for x in stmts:
            nxt = []
            for s, o in outs:
                if o[0] != "n":
                    nxt.append((s, o))
                else:
                    nxt.extend(self.stmt(s, x))
            outs = self.merge(nxt)
            if len(outs) > self.MAXPATHS:
                raise Unsupported("too many paths")
            if self.deadline and time.process_time() > self.deadline:
                raise Unsupported("verification time budget exhausted")
        return outs

    def merge(self, outs):
        return outs

    def stmt(self, st, x):
        m = getattr(self, "st_" + x.kind, None)
        if m is None:
            raise Unsupported("statement " + x.kind)
        return m(st, x)

    def lift(self, rs):
        """expression results to statement outcomes"""
        return [(s, ("x", v) if isinstance(v, Exc) else ("n",)) for s, v in rs]

    def st_Expr(self, st, x):
        if x.value.kind == "Str":
            return [(st, ("n",))]
        return self.lift(self.ev(st, x.value))

    def st_Pass(self, st, x):
        return [(st, ("n",))]

    def st_Print(self, st, x):
        # output is not modelled; evaluation of the arguments is
        es = list(x.values) + ([x.dest] if x.dest is not None else [])
        hook = self.models.get("print")
        if hook is not None:
            # a contract may follow what is written
            out = []
            for s, vs in self.evs(st, es):
                out.append((s, ("x", vs)) if isinstance(vs, Exc) else (hook(self, s, vs, x), ("n",)))
            return out
        try:
            return self.lift(self.evs(st, es))
        except Unsupported:
            self.notes.add("print arguments not evaluated")
            return [(st, ("n",))]

    def st_Import(self, st, x):
        for a in x.names:
            st.env[a.asname or a.name.split(".")[0]] = Mod(
                a.name if a.asname else a.name.split(".")[0])
        return [(st, ("n",))]

    def st_ImportFrom(self, st, x):
        for a in x.names:
            mod = st.env["__module__"]
            v = self.wrap(st, ("from", x.module, a.name), mod, a.name)
            if v is None:
                return [(st, ("x", Exc("ImportError", None, x.line)))]
            st.env[a.asname or a.name] = v
        return [(st, ("n",))]

    def st_FunctionDef(self, st, x):
        info = FuncInfo(st.env["__module__"], x)
        env = st.env
        st.env[x.name] = Fn(info, env)
        return [(st, ("n",))]

    def st_Global(self, st, x):
        raise Unsupported("global statement")

    def st_Return(self, st, x):
        if x.value is None:
            return [(st, ("r", NONE))]
        return [(s, ("x", v) if isinstance(v, Exc) else ("r", v))
                for s, v in self.ev(st, x.value)]

    def st_Break(self, st, x):
        return [(st, ("b",))]

    def st_Continue(self, st, x):
        return [(st, ("c",))]

    def st_If(self, st, x):
        out = []
        base = list(st.pc)
        yes, no = [], []
        for s, c in self.cond(st, x.test):
            if isinstance(c, Exc):
                out.append((s, ("x", c)))
                continue
            a, b = self.branch(s, c)
            if a is not None:
                yes.append(a)
            if b is not None:
                no.append(b)
        for states, pos, body in ((yes, True, x.body), (no, False, x.orelse)):
            if x.test.kind == "BoolOp":
                states = self.merged(base, states)
            for a in states:
                self.narrow(a, x.test, pos)
                out.extend(self.block(a, body))
        return out

    def merged(self, base, states):
        """states that differ in what is known only become one, where either is known"""
        n = len(base)
        groups = []
        for s in states:
            if len(s.pc) < n or any(p is not q for p, q in zip(base, s.pc)) or any(has_quant(f) for f in s.pc[n:]):
                groups.append([s])
                continue
            for g in groups:
                if self.same_but_pc(g[0], s) and len(g[0].pc) >= n and all(p is q for p, q in zip(base, g[0].pc)) \
                        and not any(has_quant(f) for f in g[0].pc[n:]):
                    g.append(s)
                    break
            else:
                groups.append([s])
        out = []
        for g in groups:
            s = g[0]
            if len(g) > 1:
                s = s.copy()
                s.pc = base + [z3.Or([z3.And(t.pc[n:]) if t.pc[n:] else z3.BoolVal(True) for t in g])]
            out.append(s)
        return out

    def same_but_pc(self, a, b):
        for x, y in ((a.env, b.env), (a.heap, b.heap), (a.ver, b.ver), (a.ghost, b.ghost)):
            if x.keys() != y.keys() or any(x[k] is not y[k] for k in x):
                return False
        return True

    def narrow(self, st, test, pos):
        """after `x is None` / `x` tests an optional variable becomes plain"""
        if test.kind == "UnaryOp" and test.op.kind == "Not":
            return self.narrow(st, test.operand, not pos)
        name = isnone = None
        if test.kind == "Name":
            name, isnone = test.id, False if pos else None
        elif test.kind == "Compare" and len(test.ops) == 1 and \
                test.left.kind == "Name" and \
                test.comparators[0].kind == "Name" and \
                test.comparators[0].id == "None":
            if test.ops[0].kind in ("Is", "Eq"):
                name, isnone = test.left.id, pos
            elif test.ops[0].kind in ("IsNot", "NotEq"):
                name, isnone = test.left.id, not pos
        if name is None or isnone is None:
            return
        v = st.env.get(name)
        if isinstance(v, T) and v.ty.k == "opt":
            st.env[name] = NONE if isnone else self.dec(
                v.ty.args[0], v.ty.get(0, v.t))

    def st_Assert(self, st, x):
        out = []
        for s, c in self.cond(st, x.test):
            if isinstance(c, Exc):
                out.append((s, ("x", c)))
                continue
            a, b = self.branch(s, c)
            if a is not None:
                out.append((a, ("n",)))
            if b is not None:
                out.append((b, ("x", Exc("AssertionError", None, x.line))))
        return out

    def st_Raise(self, st, x):
        e = x.type if hasattr(x, "type") else x.exc
        inst = getattr(x, "inst", None)
        if e is None:
            cur = st.env.get("__exc__")
            if cur is None:
                raise Unsupported("bare raise")
            return [(st, ("x", cur))]
        es = [e] + ([inst] if inst is not None else [])
        out = []
        for s, vs in self.evs(st, es):
            if isinstance(vs, Exc):
                out.append((s, ("x", vs)))
                continue
            v = vs[0]
            if isinstance(v, ExcV):
                out.append((s, ("x", Exc(v.cls, v.args[0] if v.args else None, x.line))))
            elif isinstance(v, ExtCls):
                out.append((s, ("x", Exc(v.name, vs[1] if len(vs) > 1 else None, x.line))))
            elif isinstance(v, Cls):
                self.instantiate(s, v.info, [], {}, None)
                out.append((s, ("x", Exc(v.info.name, vs[1] if len(vs) > 1 else None,
                                         x.line))))
            elif isinstance(v, Builtin):
                out.append((s, ("x", Exc(v.name.rsplit(".", 1)[-1], None, x.line))))
            else:
                raise Unsupported("raise of %r" % (v,))
        return out

    def exc_matches(self, st, exc, h):
        if h.type is None:
            return True
        r = self.ev(st, h.type)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Unsupported("except clause")
        v = r[0][1]
        for c in (v.items if isinstance(v, Tupl) else [v]):
            n = c.info.name if isinstance(c, Cls) else c.name.rsplit(".", 1)[-1]
            if isinstance(c, Cls):
                EXC_BASES.setdefault(n, self.exc_base(c.info))
            if exc.cls not in EXC_BASES and exc.cls != n:
                raise Unsupported("unknown exception class " + exc.cls)
            if exc_isa(exc.cls, n):
                return True
        return False

    def st_TryExcept(self, st, x):
        out = []
        for s, o in self.block(st, x.body):
            if o[0] == "x":
                exc = o[1]
                for h in x.handlers:
                    if self.exc_matches(s, exc, h):
                        if h.name is not None:
                            nm = h.name.id if isinstance(h.name, Node) else h.name
                            s.env[nm] = ExcV(exc.cls, [exc.val] if exc.val is not None else [])
                        old = s.env.get("__exc__")
                        s.env["__exc__"] = exc
                        for s2, o2 in self.block(s, h.body):
                            s2.env.pop("__exc__", None)
                            if old is not None:
                                s2.env["__exc__"] = old
                            out.append((s2, o2))
                        break
                else:
                    out.append((s, o))
            elif o[0] == "n" and x.orelse:
                out.extend(self.block(s, x.orelse))
            else:
                out.append((s, o))
        return out

    def st_TryFinally(self, st, x):
        out = []
        for s, o in self.block(st, x.body):
            for s2, o2 in self.block(s, x.finalbody):
                out.append((s2, o if o2[0] == "n" else o2))
        return out

    def st_Try(self, st, x):
        raise Unsupported("try")

    # --------------------------------------------------------- assignment
    def st_Assign(self, st, x):
        out = []
        for s, v in self.ev(st, x.value):
            if isinstance(v, Exc):
                out.append((s, ("x", v)))
                continue
            cur = [(s, None)]
            for t in x.targets:
                nxt = []
                for s2, e in cur:
                    if e is not None:
                        nxt.append((s2, e))
                    else:
                        nxt.extend(self.assign(s2, t, v))
                cur = nxt
            out.extend((s2, ("n",) if e is None else ("x", e)) for s2, e in cur)
        return out

    def assign(self, st, t, v):
        """list of (state, None|Exc)"""
        if t.kind == "Name":
            st.env[t.id] = v
            return [(st, None)]
        if t.kind in ("Tuple", "List"):
            return self.unpack(st, t.elts, v, t)
        if t.kind == "Attribute":
            out = []
            for s, b in self.ev(st, t.value):
                if isinstance(b, Exc):
                    out.append((s, b))
                else:
                    out.extend(self.setattr_(s, b, t.attr, v, t))
            return out
        if t.kind == "Subscript":
            out = []
            for s, b in self.ev(st, t.value):
                if isinstance(b, Exc):
                    out.append((s, b))
                    continue
                for s2, i in self.ev_slice(s, t.slice):
                    if isinstance(i, Exc):
                        out.append((s2, i))
                    else:
                        out.extend(self.setitem(s2, b, i, v, t))
            return out
        raise Unsupported("assignment to " + t.kind)

    def unpack(self, st, elts, v, t):
        n = len(elts)
        if isinstance(v, T) and v.ty.k == "opt":
            r = v.ty._dt()[4](v.t)
            a, b = self.branch(st, r)
            out = []
            if a is not None:
                out.append((a, Exc("TypeError", None, t.line)))
            if b is not None:
                out.extend(self.unpack(b, elts, self.dec(
                    v.ty.args[0], v.ty.get(0, v.t)), t))
            return out
        out = []
        for s, it in self.iterate(st, v):
            if isinstance(it, Exc):
                out.append((s, it))
                continue
            if it.items is not None:
                if len(it.items) != n:
                    out.append((s, Exc("ValueError", None, t.line)))
                    continue
                items = it.items
            else:
                a, b = self.branch(s, it.n == n)
                if b is not None:
                    out.append((b, Exc("ValueError", None, t.line)))
                if a is None:
                    continue
                s = a
                items = [it.elem(z3.IntVal(i)) for i in range(n)]
            cur = [(s, None)]
            for e, x in zip(elts, items):
                nxt = []
                for s2, er in cur:
                    nxt.extend(self.assign(s2, e, x) if er is None else [(s2, er)])
                cur = nxt
            out.extend(cur)
        return out

    def setattr_(self, st, b, name, v, e):
        if isinstance(b, ModelV):
            return b.model.setattr(self, st, b, name, v, e)
        if isinstance(b, T) and b.ty.k == "opt":
            return [(s, x if isinstance(x, Exc) else None) for s, x in self.unopt(
                st, b, lambda s, y: self.setattr_(s, y, name, v, e), e)]
        if isinstance(b, T):
            h = self.models.get("setattr:" + b.ty.key)
            if h is not None:
                return h(self, st, b, name, v, e)
        if isinstance(b, Ref) and st.place(b).kind == "obj":
            m = self.find_method(st.place(b).cls, "__setattr__")
            if m is not None:
                return [(s, r if isinstance(r, Exc) else None) for s, r in
                        self.call(st, Bound(b, m), [PStr(name), v], {}, e)]
            h = self.models.get("setfield:" + name)
            if h is not None:
                return h(self, st, b, v, e)
            q = st.mutate(b)
            q.fields[name] = v
            return [(st, None)]
        if isinstance(b, Fn) and name in ("__name__", "func_name", "__doc__", "func_doc"):
            b.renamed = True
            return [(st, None)]
        raise Unsupported("attribute assignment on %r" % (b,))

    def st_AugAssign(self, st, x):
        op = x.op.kind
        t = x.target
        out = []
        if t.kind == "Name":
            for s, vs in self.evs(st, [N("Name", x.line, id=t.id), x.value]):
                if isinstance(vs, Exc):
                    out.append((s, ("x", vs)))
                    continue
                for s2, r in self.inplace(s, op, vs[0], vs[1], x):
                    if isinstance(r, Exc):
                        out.append((s2, ("x", r)))
                    else:
                        s2.env[t.id] = r
                        out.append((s2, ("n",)))
            return out
        if t.kind == "Attribute":
            for s, b in self.ev(st, t.value):
                if isinstance(b, Exc):
                    out.append((s, ("x", b)))
                    continue
                for s2, old in self.getattr_(s, b, t.attr, t):
                    if isinstance(old, Exc):
                        out.append((s2, ("x", old)))
                        continue
                    for s3, v in self.ev(s2, x.value):
                        if isinstance(v, Exc):
                            out.append((s3, ("x", v)))
                            continue
                        for s4, r in self.inplace(s3, op, old, v, x):
                            if isinstance(r, Exc):
                                out.append((s4, ("x", r)))
                                continue
                            for s5, er in self.setattr_(s4, b, t.attr, r, t):
                                out.append((s5, ("n",) if er is None else ("x", er)))
            return out
        if t.kind == "Subscript":
            for s, b in self.ev(st, t.value):
                if isinstance(b, Exc):
                    out.append((s, ("x", b)))
                    continue
                for s2, i in self.ev_slice(s, t.slice):
                    if isinstance(i, Exc):
                        out.append((s2, ("x", i)))
                        continue
                    for s3, old in self.getitem(s2, b, i, t):
                        if isinstance(old, Exc):
                            out.append((s3, ("x", old)))
                            continue
                        for s4, v in self.ev(s3, x.value):
                            if isinstance(v, Exc):
                                out.append((s4, ("x", v)))
                                continue
                            inpl = isinstance(old, (SeqV, DictV, SetV)) and old.path is not None \
                                and op == "Add" and getattr(old, "kind", None) == "list"
                            if inpl:
                                raise Unsupported("in-place extension of a nested list")
                            for s5, r in self.inplace(s4, op, old, v, x):
                                if isinstance(r, Exc):
                                    out.append((s5, ("x", r)))
                                    continue
                                b2 = self.refresh(s5, b)
                                for s6, er in self.setitem(s5, b2, i, r, t):
                                    out.append((s6, ("n",) if er is None else ("x", er)))
            return out
        raise Unsupported("augmented assignment to " + t.kind)

    IOPS = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}

    def inplace(self, st, op, a, b, e):
        if isinstance(a, Ref):
            p = st.place(a)
            if p.kind == "obj":
                nm = self.IOPS.get(op)
                m = self.find_method(p.cls, nm) if nm else None
                if m is not None:
                    return self.call(st, Bound(a, m), [b], {}, e)
            lr = self.listref(st, a)
            if lr is not None and op == "Add" and p.kind == "list":
                return [(s, r if isinstance(r, Exc) else a) for s, r in
                        self.m_list_extend(st, lr, [b], {}, e)]
            if p.kind == "set" and op in ("BitOr", "BitAnd", "Sub"):
                nm = {"BitOr": "update"}.get(op)
                if nm is None:
                    raise Unsupported("in-place set operation")
                return [(s, r if isinstance(r, Exc) else a) for s, r in
                        self.call_method(st, a, nm, [b], {}, e)]
        return self.binop(st, op, a, b, e)

    def st_Delete(self, st, x):
        outs = [(st, ("n",))]
        for t in x.targets:
            nxt = []
            for s, o in outs:
                if o[0] != "n":
                    nxt.append((s, o))
                    continue
                if t.kind == "Name":
                    s.env.pop(t.id, None)
                    nxt.append((s, o))
                elif t.kind == "Attribute":
                    for s2, b in self.ev(s, t.value):
                        if isinstance(b, Exc):
                            nxt.append((s2, ("x", b)))
                            continue
                        if isinstance(b, ModelV):
                            for s3, er in b.model.delattr(self, s2, b, t.attr, t):
                                nxt.append((s3, ("n",) if er is None else ("x", er)))
                            continue
                        if not (isinstance(b, Ref) and s2.place(b).kind == "obj"):
                            raise Unsupported("del of an attribute")
                        q = s2.mutate(b)
                        if t.attr not in q.fields:
                            nxt.append((s2, ("x", Exc("AttributeError", None, t.line))))
                        else:
                            q.fields.pop(t.attr)
                            nxt.append((s2, ("n",)))
                elif t.kind == "Subscript":
                    for s2, b in self.ev(s, t.value):
                        if isinstance(b, Exc):
                            nxt.append((s2, ("x", b)))
                            continue
                        for s3, i in self.ev_slice(s2, t.slice):
                            if isinstance(i, Exc):
                                nxt.append((s3, ("x", i)))
                                continue
                            for s4, er in self.delitem(s3, b, i, t):
                                nxt.append((s4, ("n",) if er is None else ("x", er)))
                else:
                    raise Unsupported("del of " + t.kind)
            outs = nxt
        return outs

    def delitem(self, st, b, i, e):
        line = e.line if e is not None else None
        if isinstance(b, ModelV):
            return b.model.delitem(self, st, b, i, e)
        if isinstance(b, Ref) and st.place(b).kind == "obj":
            p = st.place(b)
            if isinstance(i, SliceV) and i.step is None and not i.ext:
                m = self.find_method(p.cls, "__delslice__")
                if m is not None:
                    mi = self.ext("sys.maxint")
                    ln = self.zlen(st, b)
                    st.assume(ln <= mi.t)   # sys.maxint: no list is longer
                    fix = lambda x: T(INT, z3.If(x.t < 0, x.t + ln, x.t))
                    return [(s, r if isinstance(r, Exc) else None) for s, r in
                            self.call(st, Bound(b, m), [fix(i.lo or I(0)), fix(i.hi or mi)], {}, e)]
            m = self.find_method(p.cls, "__delitem__")
            if m is not None:
                return [(s, r if isinstance(r, Exc) else None) for s, r in
                        self.call(st, Bound(b, m), [i], {}, e)]
            for f in ("__list__", "__dict__"):
                if f in p.fields:
                    return self.delitem(st, p.fields[f], i, e)
        if isinstance(b, DictV):
            k = self.enc(st, i, b.kty)
            y, n = self.branch(st, b.dom[k])
            out = []
            if n is not None:
                out.append((n, Exc("KeyError", i, line)))
            if y is not None:
                self.write_back(y, b.path, DictV(
                    b.kty, b.vty, z3.Store(b.dom, k, z3.BoolVal(False)), b.mp,
                    b.kind, b.path))
                card_fn(b.kty)
                out.append((y, None))
            return out
        kd = self.kind_of(st, b)
        if kd == "dict":
            r = self.dictref(st, b)
            p = st.place(r)
            if p.items is not None:
                ck = const_key(i)
                if ck is not None:
                    if ck not in p.items:
                        return [(st, Exc("KeyError", i, line))]
                    q = st.mutate(r)
                    del q.items[ck]
                    return [(st, None)]
                if not p.items:
                    return [(st, Exc("KeyError", i, line))]
                self.sym_dict(st, r, self.type_of(st, i))
                p = st.place(r)
            k = self.enc(st, i, p.kty)
            y, n = self.branch(st, p.dom[k])
            out = []
            if n is not None:
                out.append((n, Exc("KeyError", i, line)))
            if y is not None:
                q = y.mutate(r)
                card_fn(q.kty)
                if q.order is not None:
                    arr, ln = q.order
                    w = z3.Int(fresh_name("w"))
                    y.assume(z3.And(0 <= w, w < ln, arr[w] == k))
                    q.order = (delete_fn(q.kty)(arr, w), ln - 1)
                q.dom = z3.Store(q.dom, k, z3.BoolVal(False))
                out.append((y, None))
            return out
        if kd == "list":
            r = self.listref(st, b)
            if r is None:
                raise Unsupported("del in a nested list")
            p = st.place(r)
            if isinstance(i, SliceV):
                e2 = self.set_slice(st, r, i, self.new_list(st, []), e)
                return e2
            if p.items is not None:
                c = const_int(i)
                if c is not None:
                    if not -len(p.items) <= c < len(p.items):
                        return [(st, Exc("IndexError", None, line))]
                    q = st.mutate(r)
                    del q.items[c]
                    return [(st, None)]
                p = self.sym_list(st, r)
            out = []
            for s, j in self.index_cases(st, self.num(st, i), p.ln, line):
                if isinstance(j, Exc):
                    out.append((s, j))
                    continue
                q = s.mutate(r)
                q.arr = delete_fn(q.ety)(q.arr, j)
                q.ln = q.ln - 1
                out.append((s, None))
            return out
        raise Unsupported("del on %r" % (b,))

    def st_With(self, st, x):
        raise Unsupported("with statement")

    # -------------------------------------------------------------- loops
    MAXUNROLL = 40

    def st_For(self, st, x):
        out = []
        for s, v in self.ev(st, x.iter):
            if isinstance(v, Exc):
                out.append((s, ("x", v)))
                continue
            for s2, it in self.iterate(s, v):
                if isinstance(it, Exc):
                    it.line = it.line or x.line
                    out.append((s2, ("x", it)))
                elif it.items is not None:
                    out.extend(self.unroll(s2, x, it))
                else:
                    rng = None
                    if isinstance(v, Ref):
                        rng = getattr(s2.place(v), "rng", None)
                    if rng is not None and it.kind == "list":
                        it2 = It(it.n, rng[2], None, v, "range", ())
                        it2.lo = rng[0]
                        it = it2
                    out.extend(self.cut(s2, x, it))
        return out

    def unroll(self, st, x, it):
        if len(it.items) > self.MAXUNROLL:
            raise Unsupported("long concrete loop")
        out = []
        cur = [st]
        vers = {p: st.ver.get(p) for p in it.pids}
        for i, item in enumerate(it.items):
            nxt = []
            for s in cur:
                if any(s.ver.get(p) is not vers[p] for p in vers) and i:
                    raise Unsupported("container changed while iterating")
                for s2, er in self.assign(s, x.target, item):
                    if er is not None:
                        out.append((s2, ("x", er)))
                        continue
                    for s3, o in self.block(s2, x.body):
                        if o[0] in ("n", "c"):
                            nxt.append(s3)
                        elif o[0] == "b":
                            out.append((s3, ("n",)))
                        else:
                            out.append((s3, o))
            cur = nxt
            if len(cur) > self.MAXPATHS:
                raise Unsupported("too many paths")
        for s in cur:
            if any(s.ver.get(p) is not vers[p] for p in vers) and it.items and \
                    s.place(Ref(list(vers)[0])).kind != "set":
                # changed during the last iteration: a list grew/shrank
                raise Unsupported("container changed while iterating")
            if x.orelse:
                out.extend(self.block(s, x.orelse))
            else:
                out.append((s, ("n",)))
        return out

    def st_While(self, st, x):
        # concrete unrolling while the test is decided
        cur = [st]
        out = []
        for i in range(12):
            nxt = []
            symbolic = False
            for s in cur:
                try:
                    rs = self.cond(s.copy(), x.test)
                except Unsupported:
                    rs = None
                if rs is None or len(rs) != 1 or isinstance(rs[0][1], Exc) or not (
                        rs[0][1] in (True, False) or z3.is_true(z3.simplify(rs[0][1])) or
                        z3.is_false(z3.simplify(rs[0][1]))):
                    symbolic = True
                    break
            if symbolic or (i == 0 and x.test.kind in ("Name", "Num")):
                break
            for s in cur:
                s2, c = self.cond(s, x.test)[0]
                c = c if c in (True, False) else z3.is_true(z3.simplify(c))
                if not c:
                    out.extend(self.block(s2, x.orelse) if x.orelse else [(s2, ("n",))])
                    continue
                for s3, o in self.block(s2, x.body):
                    if o[0] in ("n", "c"):
                        nxt.append(s3)
                    elif o[0] == "b":
                        out.append((s3, ("n",)))
                    else:
                        out.append((s3, o))
            cur = nxt
            if not cur:
                return out
        for s in cur:
            out.extend(self.cut(s, x, None))
        return out

    # ----- one symbolic iteration from a head state
    def one_iter(self, head, x, it, k):
        """outcomes of one iteration: [(state, outcome)] with outcome
        'n'/'c' = reached loop end, ('exit',) = while test false"""
        out = []
        if it is not None:
            s = head.copy()
            s.assume(k < it.n)
            for f in self.elem_facts(it, k):
                s.assume(f)
            for s2, er in self.assign(s, x.target, it.elem(k)):
                if er is not None:
                    out.append((s2, ("x", er)))
                else:
                    out.extend(self.block(s2, x.body))
        else:
            for s, c in self.cond(head.copy(), x.test):
                if isinstance(c, Exc):
                    out.append((s, ("x", c)))
                    continue
                a, b = self.branch(s, c)
                if b is not None:
                    out.append((b, ("exit",)))
                if a is not None:
                    self.narrow(a, x.test, True)
                    out.extend(self.block(a, x.body))
        return out

    def reach(self, st, v, seen):
        """pids reachable from a value"""
        todo = [v]
        while todo:
            y = todo.pop()
            if isinstance(y, Ref):
                if y.pid in seen:
                    continue
                seen.add(y.pid)
                p = st.heap.get(y.pid)
                if p is None:
                    continue
                if p.kind == "obj":
                    todo.extend(p.fields.values())
                elif p.items is not None:
                    todo.extend(p.items.values() if isinstance(p.items, dict) else p.items)
            elif isinstance(y, Tupl):
                todo.extend(y.items)
            elif isinstance(y, IterV) and y.it.src is not None:
                todo.append(y.it.src)
            elif isinstance(y, Bound):
                todo.append(y.self_)
        return seen

    def cut(self, st, x, it):
        """loop over symbolic data, cut by inductive invariants"""
        eng = self
        k = z3.Int(fresh_name("k"))
        st = st.copy()
        if it is not None:
            st.assume(it.n >= 0)
            n0 = z3.simplify(it.n)
            if z3.is_int_value(n0) and n0.as_long() <= 0:
                return self.block(st, x.orelse) if x.orelse else [(st, ("n",))]
            if it.key is not None and it.kind in ("dict", "items", "set"):
                self.keep(st, it.key(z3.IntVal(0)))
        L = LoopInfo(self, x, it, st, k)
        L.outer = self.loop_stack[-1] if self.loop_stack else None
        L.depth = len(self.loop_stack)
        rec, self.recording = self.recording, False
        self.loop_stack.append(L)
        try:
            # --- 1. what does the body modify?
            types = {}          # variable -> Ty | None (undefined at head)
            ptypes = {}         # pid -> description
            names = set()
            for rnd in range(6):
                head = self.havoc(st, L, types, ptypes)
                head.assume(k >= 0)
                if it is not None:
                    head.assume(k <= it.n)
                L.head = head
                L.vars = dict(types)
                outs = self.one_iter(head, x, it, k)
                nt, np_ = dict(types), dict(ptypes)
                for s, o in outs:
                    if o[0] not in ("n", "c"):
                        continue
                    self.diff(st, head, s, nt, np_, it)
                if nt == types and np_ == ptypes:
                    break
                types, ptypes = nt, np_
            else:
                raise Unsupported("loop modifies a growing set of variables")
            L.vars = dict(types)
            # --- 2. candidates; those with a group are alternatives
            base, groups = [], {}
            for c in self.candidates(L):
                if len(c) == 3 and c[2] is not None:
                    groups.setdefault(c[2], []).append((c[0], c[1]))
                else:
                    base.append((c[0], c[1]))
            base = self.entry_ok(L, st, base, x)
            got, best = None, 0
            for g in groups:
                mine = self.entry_ok(L, st, groups[g], x)
                if not mine:
                    continue
                res = self.houdini(L, st, types, ptypes, x, it, k, mine + base)
                score = sum(1 for c in mine if c in res[0])
                if score > best:
                    got, best = res, score
            if got is None:
                got = self.houdini(L, st, types, ptypes, x, it, k, base)
            live, head, outs = got
        finally:
            self.recording = rec
            self.loop_stack.pop()
        self.log("loop line %s: kept %s" % (x.line, [l for l, _ in live]))
        # --- 4. final, recorded pass
        self.loop_stack.append(L)
        try:
            if self.recording:
                for lab, f in live:
                    self.oblige("inv:%s:init" % lab, st,
                                f(SView(L, st, z3.IntVal(0), self)), x.line, "inv")
                outs = self.one_iter(head.copy(), x, it, k)
                for s, o in outs:
                    if o[0] in ("n", "c"):
                        for lab, f in live:
                            self.oblige("inv:%s:step" % lab, s,
                                        f(SView(L, s, k + 1, self)), x.line, "inv")
                if it is None:
                    self.termination(L, head, outs, x)
        finally:
            self.loop_stack.pop()
        # --- 5. exits
        res = []
        for s, o in outs:
            if o[0] in ("n", "c"):
                if it is not None:
                    vers = [p for p in it.pids if s.ver.get(p) is not head.ver.get(p)]
                    if vers:
                        raise Unsupported("container changed while iterating")
                continue
            if o[0] == "b":
                s.ghost["__brk%s" % x.line] = k
                res.append((s, ("n",)))
            elif o[0] == "exit":
                res.extend(self.block(s, x.orelse) if x.orelse else [(s, ("n",))])
            else:
                res.append((s, o))
        if it is not None:
            ex = head.copy()
            ex.assume(k == it.n)
            # the loop variable keeps its last value (if there was one)
            for nm in self.target_names(x.target):
                if nm not in st.env or True:
                    ex.env[nm] = Undef("loop variable after the loop")
            if x.target.kind == "Name":
                self.last_value(st, ex, x, it)
            if self.feasible(ex):
                res.extend(self.block(ex, x.orelse) if x.orelse else [(ex, ("n",))])
        return res

    def keep(self, st, t):
        """make a term known to the solver"""
        st.assume(fun("keep_" + str(t.sort()), t.sort(), z3.BoolSort())(t))

    def again(self, pc, g):
        """other ways of asking the solver"""
        for kw in ({"auto": True}, {"tactic": True}, {"seed": 1}, {"seed": 2}, {"seed": 3}, {"tactic": True, "seed": 4}):
            if self.check(pc, g, self.hto, **kw)[0] == "unsat":
                return True
        return False

    def dump(self, pc, g):
        for f in pc:
            print("PC", str(f)[:1500])
        print("GOAL", g)
        if os.environ.get("PYVC_SMT"):
            s = z3.Solver()
            limit(s, 5)
            for f in self.axioms():
                s.add(f)
            for f in pc:
                s.add(f)
            s.add(z3.Not(g))
            open(os.environ["PYVC_SMT"], "w").write(s.to_smt2())
            print("CHECK", s.check(), s.reason_unknown())
            for a in (False, True):
                t = z3.SimpleSolver()
                if a:
                    t.set("auto_config", True)
                limit(t, self.hto)
                t.add(list(self.axioms()) + list(pc) + [z3.Not(g)])
                print("SIMPLE", a, t.check(), t.reason_unknown())
                if t.check() == z3.unknown:
                    print(t.statistics())

    def entry_ok(self, L, st, cands, x):
        """candidates that hold when the loop is reached"""
        live = []
        for lab, f in cands:
            try:
                g = f(SView(L, st, z3.IntVal(0), self))
            except (KeyError, Unsupported, AttributeError, z3.Z3Exception, IndexError):
                continue
            if g is None:
                continue
            if self.check(st.pc, g, self.hto)[0] == "unsat":
                live.append((lab, f))
            else:
                self.dropped.append("%s@%s:entry" % (lab, x.line))
                if os.environ.get("PYVC_DUMP") == "%s@%s" % (lab, x.line):
                    self.dump(st.pc, g)
        return live

    def houdini(self, L, st, types, ptypes, x, it, k, live):
        """largest inductive subset of the candidates; (kept, head, outcomes)"""
        while True:
            head = self.havoc(st, L, types, ptypes)
            L.head = head
            L.vars = dict(types)
            head.assume(k >= 0)
            if it is not None:
                head.assume(k <= it.n)
            ok = []
            for lab, f in live:
                try:
                    g = f(SView(L, head, k, self))
                except (KeyError, Unsupported, AttributeError, z3.Z3Exception,
                        IndexError):
                    continue
                if g is None:
                    continue
                head.assume(zbool(g))
                ok.append((lab, f))
            live = ok
            outs = self.one_iter(head, x, it, k)
            bad = set()
            for s, o in outs:
                if o[0] not in ("n", "c"):
                    continue
                self.alias_check(st, head, s, types)
                for i, (lab, f) in enumerate(live):
                    if i in bad:
                        continue
                    try:
                        g = f(SView(L, s, k + 1, self))
                    except (KeyError, Unsupported, AttributeError, z3.Z3Exception,
                            IndexError):
                        g = None
                    if g is None or self.check(s.pc, g, self.hto)[0] != "unsat" and not (
                            self.retry and self.again(s.pc, g)):
                        bad.add(i)
                        self.dropped.append("%s@%s:step" % (lab, x.line))
                        if os.environ.get("PYVC_DUMP") == "%s@%s:step" % (lab, x.line) and g is not None:
                            self.dump(s.pc, g)
            if not bad:
                return live, head, outs
            live = [c for i, c in enumerate(live) if i not in bad]

    def last_value(self, st, ex, x, it):
        """value of a simple for-target after the loop, if it was not empty"""
        nm = x.target.id
        if self.assigned_in(x.body, nm):
            return
        if self.entails(ex, it.n > 0):
            try:
                ex.env[nm] = it.elem(it.n - 1)
            except Unsupported:
                pass

    def assigned_in(self, body, nm):
        for b in body:
            for y in walk(b):
                if y.kind == "Name" and y.id == nm and getattr(
                        y, "ctx", None) is not None and y.ctx.kind == "Store":
                    return True
                if y.kind in ("Assign",):
                    for t in y.targets:
                        for z in walk(t):
                            if z.kind == "Name" and z.id == nm:
                                return True
                if y.kind in ("AugAssign", "For"):
                    for z in walk(y.target):
                        if z.kind == "Name" and z.id == nm:
                            return True
        return False

    def target_names(self, t):
        return [y.id for y in walk(t) if y.kind == "Name"]

    def termination(self, L, head, outs, x):
        """a while loop must have a decreasing measure"""
        cands = []
        if self.cur is not None:
            cands.extend(self.cur.variants(L))

        def auto():
            for nm, ty in sorted(L.vars.items()):
                if ty == INT:
                    yield nm, lambda V, nm=nm: V.t(nm)
                    for nm2, v2 in sorted(head.env.items()):
                        if nm2 != nm and isinstance(v2, T) and v2.ty == INT:
                            yield "%s-%s" % (nm2, nm), \
                                lambda V, a=nm, b=nm2: V.t(b) - V.t(a)
                    for nm2, v2 in sorted(head.env.items()):
                        if self.kind_of(head, v2) in ("list", "tuple", "str"):
                            yield "len(%s)-%s" % (nm2, nm), \
                                lambda V, a=nm, b=nm2: V.seq(b)[1] - V.t(a)
            for nm, v in sorted(head.env.items()):
                if isinstance(v, Ref) and head.place(v).kind == "list":
                    yield "len(%s)" % nm, lambda V, nm=nm: V.seq(nm)[1]
        cands.extend(auto())
        V0 = SView(L, head, L.k, self)
        for lab, f in cands:
            try:
                m0 = f(V0)
                ends = [(s, f(SView(L, s, L.k + 1, self))) for s, o in outs
                        if o[0] in ("n", "c")]
            except (KeyError, Unsupported, AttributeError, z3.Z3Exception, IndexError):
                continue
            good = True
            for s, m1 in ends:
                if self.check(s.pc, z3.And(m1 < m0, m0 >= 0), self.hto)[0] != "unsat":
                    good = False
                    break
            if good:
                for s, m1 in ends:
                    self.oblige("terminates:%s" % lab, s, z3.And(m1 < m0, m0 >= 0),
                                x.line, "variant")
                return
        if self.cur is not None and getattr(self.cur, "need_termination", False):
            for s, o in outs:
                if o[0] in ("n", "c"):
                    self.oblige("terminates", s, z3.BoolVal(False), x.line, "variant")
        else:
            self.notes.add("termination of the loop at line %s not proved" % x.line)

    # ----- havoc
    def fresh_val(self, st, ty, name):
        if ty.k == "seq":
            arr = z3.Const(fresh_name(name), arr_sort(ty.args[0]))
            ln = z3.Int(fresh_name("len_" + name))
            st.assume(ln >= 0)
            if ty.args[1] == "list":
                return self.new_symlist(st, ty.args[0], arr, ln)
            return SeqV(ty.args[0], arr, ln, ty.args[1])
        if ty.k == "dict":
            p = DictP(kty=ty.args[0], vty=ty.args[1],
                      dom=z3.Const(fresh_name("dom_" + name), SET(ty.args[0]).sort),
                      mp=z3.Const(fresh_name("map_" + name), z3.ArraySort(
                          ty.args[0].sort, ty.args[1].sort)), dkind=ty.args[2])
            return st.alloc(p)
        if ty.k == "set":
            return st.alloc(SetP(ety=ty.args[0], arr=z3.Const(
                fresh_name(name), ty.sort)))
        if ty.k == "tup":
            return Tupl([self.fresh_val(st, a, name) for a in ty.args])
        if ty.k == "none":
            return NONE
        return self.dec(ty, ty.fresh(name))

    def havoc(self, st, L, types, ptypes):
        h = st.copy()
        for pid, d in ptypes.items():
            self.havoc_place(h, pid, d)
        for nm, ty in types.items():
            if ty is None:
                h.env[nm] = Undef("assigned in the loop")
            else:
                h.env[nm] = self.fresh_val(h, ty, nm)
        return h

    def havoc_place(self, h, pid, d):
        p = h.heap[pid].copy()
        h.heap[pid] = p
        h.ver[pid] = object()
        if p.kind == "list":
            if d[0] == "items":
                p.items = [self.fresh_val(h, t, "it") if t is not None else x
                           for t, x in zip(d[1], p.items)]
            else:
                ety = d[1]
                p.items, p.ety = None, ety
                p.arr = z3.Const(fresh_name("lst"), arr_sort(ety))
                p.ln = z3.Int(fresh_name("len"))
                h.assume(p.ln >= 0)
        elif p.kind == "dict":
            if d[0] == "items":
                p.items = {kk: (self.fresh_val(h, t, "dv") if t is not None else
                                p.items[kk]) for kk, t in d[1]}
            else:
                kty, vty = d[1], d[2]
                p.items, p.kty, p.vty = None, kty, vty
                p.dom = z3.Const(fresh_name("dom"), SET(kty).sort)
                p.mp = z3.Const(fresh_name("map"), z3.ArraySort(kty.sort, vty.sort))
                if p.dkind == "odict":
                    p.order = (z3.Const(fresh_name("ord"), arr_sort(kty)),
                               z3.Int(fresh_name("len")))
                    h.assume(p.order[1] >= 0)
        elif p.kind == "set":
            p.items, p.ety = None, d[1]
            p.arr = z3.Const(fresh_name("set"), SET(d[1]).sort)
        elif p.kind == "obj":
            for f, t in d[1]:
                if t is None:
                    p.fields[f] = Undef("assigned in the loop")
                else:
                    p.fields[f] = self.fresh_val(h, t, f)
        if d[-1] is True:
            p.slotver = object()

    def vtype(self, st, v):
        """type used to havoc a value; None if it cannot be havocked"""
        if isinstance(v, Undef):
            return None
        if isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "obj" or p.kind == "dict" and p.dkind == "odict":
                return None
        if isinstance(v, (SeqV, DictV, SetV)) and v.path is not None:
            return None
        try:
            t = self.type_of(st, v)
        except Unsupported:
            return None
        return t

    def vjoin(self, a, b):
        if a is None or b is None:
            return None
        try:
            return self.join(a, b)
        except Unsupported:
            return None

    def same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) and isinstance(b, T):
            return a.ty == b.ty and a.t.eq(b.t)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.pid == b.pid
        if isinstance(a, PStr) and isinstance(b, PStr):
            return a.s == b.s
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return True
        if isinstance(a, Tupl) and isinstance(b, Tupl):
            return len(a.items) == len(b.items) and all(
                self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return a.arr.eq(b.arr) and a.ln.eq(b.ln)
        if isinstance(a, DictV) and isinstance(b, DictV):
            return a.dom.eq(b.dom) and a.mp.eq(b.mp)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return a.arr.eq(b.arr)
        if isinstance(a, (Fn, Cls, Mod, Builtin, ExtCls, UFn)) and type(a) is type(b):
            return getattr(a, "info", None) is getattr(b, "info", None) and \
                getattr(a, "name", None) == getattr(b, "name", None)
        return False

    def diff(self, st, head, s, types, ptypes, it):
        """record what the body changed between head and end state s"""
        for nm, v in s.env.items():
            if nm.startswith("__") and not nm.startswith(("__r", "__c", "__u")):
                continue
            if nm not in st.env:
                types[nm] = None
                continue
            if nm in types and types[nm] is None:
                continue
            if nm not in types and self.same_val(v, head.env.get(nm)):
                continue
            if nm in types and self.same_val(v, head.env.get(nm)):
                continue
            t0 = types[nm] if nm in types else self.vtype(st, st.env[nm])
            t1 = self.vtype(s, v)
            j = self.vjoin(t0, t1)
            types[nm] = j
        for nm in list(st.env):
            if nm not in s.env and nm not in types:
                types[nm] = None
        for pid in st.ver:
            if pid not in s.ver or s.ver[pid] is head.ver[pid]:
                continue
            p0, ph, p1 = st.heap[pid], head.heap[pid], s.heap[pid]
            slots = p1.slotver is not ph.slotver
            old = ptypes.get(pid)
            if old is not None and old[-1] is True:
                slots = True
            r = Ref(pid)
            if p0.kind == "list":
                if p0.items is not None and p1.items is not None and \
                        len(p0.items) == len(p1.items) and p0.items and \
                        (old is None or old[0] == "items"):
                    ts = []
                    for i, (a, b) in enumerate(zip(p0.items, p1.items)):
                        o = old[1][i] if old is not None else None
                        if o is None and self.same_val(a, b):
                            ts.append(None)
                            continue
                        j = self.vjoin(o if o is not None else self.vtype(st, a),
                                       self.vtype(s, b))
                        if j is None:
                            raise Unsupported("list element in loop")
                        ts.append(j)
                    ptypes[pid] = ("items", tuple(ts), slots)
                else:
                    t = self.join(self.seq_ty(st, r), self.seq_ty(s, r))
                    if old is not None and old[0] == "sym":
                        t = self.join(t, old[1])
                    if not self.known(t):
                        raise Unsupported("list with unknown element type in loop")
                    ptypes[pid] = ("sym", t, slots)
            elif p0.kind == "dict":
                if p0.items is not None and p1.items is not None and \
                        list(p0.items) == list(p1.items) and p0.items and \
                        (old is None or old[0] == "items"):
                    ts = []
                    oldm = dict(old[1]) if old is not None else {}
                    for kk in p0.items:
                        a, b = p0.items[kk], p1.items[kk]
                        o = oldm.get(kk)
                        if o is None and self.same_val(a, b):
                            ts.append((kk, None))
                            continue
                        j = self.vjoin(o if o is not None else self.vtype(st, a),
                                       self.vtype(s, b))
                        if j is None:
                            raise Unsupported("dict value in loop")
                        ts.append((kk, j))
                    ptypes[pid] = ("items", tuple(ts), slots)
                else:
                    t0, t1 = self.type_of(st, r), self.type_of(s, r)
                    kt = self.join(t0.args[0], t1.args[0])
                    vt = self.join(t0.args[1], t1.args[1])
                    if not (self.known(kt) and self.known(vt)):
                        raise Unsupported("dict with unknown types in loop")
                    ptypes[pid] = ("sym", kt, vt, slots)
            elif p0.kind == "set":
                t = self.join(self.type_of(st, r).args[0], self.type_of(s, r).args[0])
                if not self.known(t):
                    raise Unsupported("set of unknown type in loop")
                ptypes[pid] = ("sym", t, slots)
            else:
                fs = dict(old[1]) if old is not None else {}
                for f in set(p0.fields) | set(p1.fields):
                    if f in p1.fields and f in ph.fields and self.same_val(
                            p1.fields[f], ph.fields[f]):
                        continue
                    if f not in p0.fields or f not in p1.fields:
                        raise Unsupported("field created in a loop")
                    fs[f] = self.vjoin(fs[f] if f in fs else
                                       self.vtype(st, p0.fields[f]),
                                       self.vtype(s, p1.fields[f]))
                ptypes[pid] = ("obj", tuple(sorted(fs.items(), key=lambda y: y[0])), slots)

    def alias_check(self, st, head, s, types):
        """variables havocked as separate containers must stay separate"""
        seen = {}
        for nm, ty in types.items():
            v = s.env.get(nm)
            if ty is None or not isinstance(v, Ref):
                continue
            seen.setdefault(v.pid, []).append(nm)
        if not seen:
            return
        others = {}
        for nm, v in s.env.items():
            if nm in types and types[nm] is not None:
                continue
            if nm in types:
                continue
            for p in self.reach(s, v, set()):
                others[p] = nm
        for pid, nms in seen.items():
            if len(nms) > 1 or pid in others:
                if s.heap[pid].kind in ("list", "dict", "set"):
                    # same object under two names: only sound if never mutated
                    # afterwards; conservatively refuse
                    raise Unsupported("aliasing of loop variables %s" % (
                        nms + ([others[pid]] if pid in others else [])))

    # ----- candidate invariants
    def candidates(self, L):
        out = []
        if self.cur is not None:
            for c in self.cur.inv(L):
                out.append(c)
        out.extend(self.auto_candidates(L))
        return out

    def auto_candidates(self, L):
        st, head = L.entry, L.head
        out = []
        for nm, ty in sorted(L.vars.items()):
            if ty is None:
                continue
            v0 = st.env.get(nm)
            if ty == INT and isinstance(v0, T):
                t0 = self.enc(st, v0, INT)
                out.append(("%s=entry+k" % nm, lambda V, nm=nm, t0=t0: V.t(nm) == t0 + V.k))
                out.append(("%s>=entry" % nm, lambda V, nm=nm, t0=t0: V.t(nm) >= t0))
                out.append(("%s<=entry" % nm, lambda V, nm=nm, t0=t0: V.t(nm) <= t0))
                out.append(("%s>=0" % nm, lambda V, nm=nm: V.t(nm) >= 0))
                if L.n is not None:
                    out.append(("%s<=entry+k" % nm,
                                lambda V, nm=nm, t0=t0: V.t(nm) <= t0 + V.k))
            elif ty == REAL and isinstance(v0, T):
                out.append(("%s>=0" % nm, lambda V, nm=nm: z3.ToReal(V.t(nm)) >= 0 if
                            V.t(nm).sort() == z3.IntSort() else V.t(nm) >= 0))
            elif ty.k == "seq" and v0 is not None:
                try:
                    l0 = self.zlen(st, v0)
                except Unsupported:
                    continue
                out.append(("len(%s)=entry+k" % nm,
                            lambda V, nm=nm, l0=l0: self.zlen(V.st, V.val(nm)) == l0 + V.k))
                out.append(("len(%s)=entry" % nm,
                            lambda V, nm=nm, l0=l0: self.zlen(V.st, V.val(nm)) == l0))
        for pid in head.ver:
            if pid in st.ver and st.ver[pid] is not head.ver[pid]:
                p = st.heap[pid]
                if p.kind == "list" and head.heap[pid].items is None:
                    r = Ref(pid)
                    l0 = self.zlen(st, r)
                    out.append(("len#%s=entry+k" % p.kind,
                                lambda V, r=r, l0=l0: self.zlen(V.st, r) == l0 + V.k))
                    out.append(("len#%s=entry" % p.kind,
                                lambda V, r=r, l0=l0: self.zlen(V.st, r) == l0))
                    out.append(("len#%s<=entry+k" % p.kind,
                                lambda V, r=r, l0=l0: z3.And(
                                    self.zlen(V.st, r) <= l0 + V.k,
                                    self.zlen(V.st, r) >= l0)))
        return out
