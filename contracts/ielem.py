"""texts with an index: spans, text and numbers of elements"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort, TH
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import line

M = "daeso.ptc.ielemtree.IndexElemTree."
S_, Z, B_ = STR.sort, z3.IntSort(), z3.BoolSort()
EL, ID = OP("Elem"), OP("Ident")
E_ = EL.sort
TI, TID = TUP(STR, INT), TUP(STR, ID)
one = lambda b: z3.If(b, 1, 0)
TAG, TEXT, TAIL = [fun("x_" + n, E_, S_) for n in ("tag", "text", "tail")]
HASTEXT, HASTAIL = [fun("x_has_" + n, E_, B_) for n in ("text", "tail")]
NCH, CHILD, IDENT = fun("x_children", E_, Z), fun("x_child", E_, Z, E_), fun("x_id", E_, ID.sort)
SUB, WHICH = fun("x_subtree", E_, SET(EL).sort), fun("x_which", E_, E_, Z)
IGN = fun("x_ignored", E_, B_)
IGNORE, NEWLINE, BLANK = [z3.Const(n + "_tags", SET(STR).sort) for n in ("ignore", "newline", "blank")]
TXT = fun("x_shown", E_, S_)                     # what an element contributes to the text, with its tail
BEFORE = fun("x_before", E_, S_, Z)              # elements with a tag before an element
TOTAL = fun("x_total", E_, S_, Z)                # elements with a tag in a subtree
cat, slen = fun("strcat", S_, S_, S_), fun("strlen", S_, Z)
SLICE = fun("strslice", S_, Z, Z, S_)
AT = fun("x_at", S_, Z, S_, B_)                  # the text contains this one from this position on
BODY = RecFn("x_body", [E_, Z, S_], lambda F, e, k: z3.If(k <= 0, STRIP(HASTEXT(e), TEXT(e)), cat(F(e, k - 1), TXT(CHILD(e, k - 1)))))
TOTALS = RecFn("x_totals", [E_, S_, Z, Z], lambda F, e, t, k: z3.If(k <= 0, one(TAG(e) == t), F(e, t, k - 1) + TOTAL(CHILD(e, k - 1), t)))
content = lambda e: BODY(e, NCH(e))
FIELDS = {"n": INT, "start": INT, "end": INT, "spanned": BOOL, "marked": BOOL, "links": INT}
EA = {k: Ty("arr", EL, t) for k, t in FIELDS.items()}
CA, HA, TA = Ty("arr", STR, INT), Ty("arr", STR, BOOL), Ty("arr", TI, EL)
IA, IH = Ty("arr", TID, EL), Ty("arr", TID, BOOL)
GHOST = dict(EA, count=CA, tags=HA, entry=TA, byid=IA, hasid=IH, idtags=HA)


def STRIP(has, t):
    return z3.If(has, STRIPPED(t), STRIPPED(lit("")))


def STRIPPED(t):
    return fun("lib_str_strip_" + STR.key, S_, S_)(t)


def shown(e):
    """what an element contributes, by the settings"""
    c = content(e)
    return cat(z3.If(IGN(e), lit(""), z3.If(BLANK[TAG(e)], cat(c, lit("\n\n")), z3.If(NEWLINE[TAG(e)], cat(c, lit("\n")), c))),
               STRIP(HASTAIL(e), TAIL(e)))


POSITIVE = Lemma("x-totals-positive", [E_, S_, Z], lambda e, t, k: TOTALS(e, t, k) >= one(TAG(e) == t),
                 hyp=lambda e, t, k: k >= 0, measure=lambda e, t, k: k, hints=lambda e, t, k: [(e, t, k - 1)],
                 extra=lambda e, t, k: [TOTAL(CHILD(e, k - 1), t) >= 0, TOTALS(e, t, k - 1) == TOTALS.f0(e, t, k - 1)],
                 pats=lambda e, t, k: [TOTALS.f(e, t, k)], lim=lambda e, t, k: TOTALS.f0(e, t, k) >= one(TAG(e) == t))
LEMMAS = [POSITIVE]


def tree_axioms(c):
    POSITIVE.use()
    e, x, k, t = z3.Const("xe", E_), z3.Const("xx", E_), z3.Int("xk"), z3.Const("xt", S_)
    a, b, s = z3.Consts("xa xb xs", S_)
    i = z3.Int("xi")
    inside = z3.And(0 <= k, k < NCH(e))
    w = WHICH(e, x)
    c.assume(forall(e, z3.And(NCH(e) >= 0, SUB(e)[e]), [NCH(e)]),
             forall([e, x], z3.Implies(SUB(e)[x], z3.Or(x == e, z3.And(0 <= w, w < NCH(e), SUB(CHILD(e, w))[x]))), [SUB(e)[x]]),
             forall([e, k, x], z3.Implies(z3.And(inside, SUB(CHILD(e, k))[x]), z3.And(w == k, SUB(e)[x], x != e)), [SUB(CHILD(e, k))[x]]),
             forall([e, k], z3.Implies(inside, z3.And(IGN(CHILD(e, k)) == z3.Or(IGN(e), IGNORE[TAG(CHILD(e, k))]), SUB(e)[CHILD(e, k)],
                                                      SUB(CHILD(e, k))[CHILD(e, k)])), [CHILD(e, k)]),
             forall([e, k, t], z3.Implies(inside, BEFORE(CHILD(e, k), t) == BEFORE(e, t) + TOTALS(e, t, k)), [BEFORE(CHILD(e, k), t)]),
             forall([e, x, k], z3.Implies(z3.And(SUB(e)[x], 0 <= k, k < NCH(x)), SUB(e)[CHILD(x, k)]), [z3.MultiPattern(SUB(e)[x], CHILD(x, k))]),
             forall([e, t], TOTAL(e, t) >= 0, [TOTAL(e, t)]),
             # texts
             forall([a, b], slen(cat(a, b)) == slen(a) + slen(b), [cat(a, b)]), forall(a, slen(a) >= 0, [slen(a)]),
             slen(lit("")) == 0, STRIPPED(lit("")) == lit(""), forall(a, z3.Implies(slen(a) == 0, a == lit("")), [slen(a)]),
             forall([e, x], z3.Implies(z3.And(SUB(e)[x], IGN(e)), IGN(x)), [z3.MultiPattern(SUB(e)[x], IGN(x))]),
             forall([a, i, s, b], z3.Implies(AT(a, i, s), AT(cat(a, b), i, s)), [z3.MultiPattern(AT(a, i, s), cat(a, b))]),
             forall([a, i, s, b], z3.Implies(AT(b, i, s), AT(cat(a, b), slen(a) + i, s)), [z3.MultiPattern(AT(b, i, s), cat(a, b))]),
             forall(a, z3.And(AT(a, 0, a), AT(a, 0, lit(""))), [slen(a)]),
             forall([a, i, s], z3.Implies(AT(a, i, s), z3.And(i >= 0, i + slen(s) <= slen(a), SLICE(a, i, i + slen(s)) == s)), [AT(a, i, s)]))
    c.eng.zlen(c.st, T(STR, lit("x")))


class Elem(object):
    """attributes: those of the index are kept in ghost fields of the tree"""


class Method(object):
    def __init__(self, owner):
        self.owner = owner

    def call(self, eng, st, v, args, kw, e):
        x = v.el
        if v.name in ("getchildren", "getiterator", "iter") and not args:
            if v.name != "getchildren":
                raise Unsupported("iteration over a subtree")
            return [(st, ModelV(Children(), el=x))]
        if v.name == "set" and len(args) == 2 and isinstance(args[0], PStr):
            k, val = args[0].s, args[1]
            st = st.copy()
            q = st.mutate(self.owner)
            put = lambda f, t: q.fields.__setitem__("@" + f, T(EA[f], z3.Store(q.fields["@" + f].t, x, t)))
            if k == "_n":
                put("n", eng.enc(st, val, INT))
            elif k == "_start":
                put("start", eng.enc(st, val, INT))
                put("spanned", z3.BoolVal(True))
            elif k == "_end":
                put("end", eng.enc(st, val, INT))
            elif k == "_ignore":
                for s, t in eng.truth(st, val):
                    put("marked", eng.enc(s, B(t), BOOL))
            elif k == "_alignments":
                put("links", eng.zlen(st, val))
            else:
                raise Unsupported("attribute " + k)
            return [(st, NONE)]
        if v.name == "get" and args and isinstance(args[0], PStr):
            if args[0].s == "id":
                return [(st, T(ID, IDENT(x)))]
            if args[0].s in ("_start", "_end"):
                g = st.place(self.owner).fields
                return [(s, T(INT, g["@" + args[0].s[1:]].t[x]) if b else (args[1] if len(args) > 1 else NONE))
                        for s, b in eng.split(st, g["@spanned"].t[x])]
        raise Unsupported("method %s of an element" % v.name)


class Attrib(object):
    """the attributes as a dictionary"""

    def method(self, eng, st, v, name, args, kw, e):
        if name != "pop" or len(args) != 2 or not isinstance(args[0], PStr):
            raise Unsupported("attributes." + name)
        st = st.copy()
        q = st.mutate(v.owner)
        f = {"_ignore": "marked", "_start": "spanned", "_end": None}
        if args[0].s not in f:
            raise Unsupported("attribute " + args[0].s)
        f = f[args[0].s]
        if f:
            q.fields["@" + f] = T(EA[f], z3.Store(q.fields["@" + f].t, v.el, z3.BoolVal(False)))
        return [(st, NONE)]


class Children(object):
    has_iter = True

    def iterate(self, eng, st, v):
        return [(st, It(NCH(v.el), lambda k: T(EL, CHILD(v.el, k)), None, v, "children", key=lambda k: CHILD(v.el, k)))]

    def zlen(self, eng, st, v):
        return NCH(v.el)


class Counts(object):
    """tagCountTable"""

    def getitem(self, eng, st, v, i, e):
        t = eng.enc(st, i, STR)
        return [(s, ModelV(Entries(), owner=v.owner, tag=t) if b else Exc("KeyError", i, line(e)))
                for s, b in eng.split(st, st.place(v.owner).fields["@tags"].t[t])]

    def contains(self, eng, st, v, x):
        return [(st, st.place(v.owner).fields["@tags"].t[eng.enc(st, x, STR)])]

    def setitem(self, eng, st, v, i, x, e):
        t = eng.enc(st, i, STR)
        items = st.place(x).items
        if items is None or len(items) > 1:
            raise Unsupported("entries")
        st = st.copy()
        q = st.mutate(v.owner)
        g = q.fields
        g["@tags"] = T(HA, z3.Store(g["@tags"].t, t, z3.BoolVal(True)))
        g["@count"] = T(CA, z3.Store(g["@count"].t, t, z3.IntVal(len(items))))
        for k, y in enumerate(items):
            g["@entry"] = T(TA, z3.Store(g["@entry"].t, TI.mk(t, z3.IntVal(k)), eng.enc(st, y, EL)))
        return [(st, None)]

    def method(self, eng, st, v, name, args, kw, e):
        if name == "setdefault" and len(args) == 2:
            t = eng.enc(st, args[0], STR)
            out = []
            for s, b in eng.split(st, st.place(v.owner).fields["@tags"].t[t]):
                if not b:
                    (s, _), = self.setitem(eng, s, v, args[0], args[1], e)
                out.append((s, ModelV(Entries(), owner=v.owner, tag=t)))
            return out
        raise Unsupported("table method " + name)


class Entries(object):
    def zlen(self, eng, st, v):
        return st.place(v.owner).fields["@count"].t[v.tag]

    def method(self, eng, st, v, name, args, kw, e):
        if name != "append":
            raise Unsupported("entries." + name)
        st = st.copy()
        g = st.mutate(v.owner).fields
        n = g["@count"].t[v.tag]
        g["@entry"] = T(TA, z3.Store(g["@entry"].t, TI.mk(v.tag, n), eng.enc(st, args[0], EL)))
        g["@count"] = T(CA, z3.Store(g["@count"].t, v.tag, n + 1))
        return [(st, NONE)]


class Ids(object):
    """tagIdTable"""

    def getitem(self, eng, st, v, i, e):
        t = eng.enc(st, i, STR)
        return [(s, ModelV(OfTag(), owner=v.owner, tag=t) if b else Exc("KeyError", i, line(e)))
                for s, b in eng.split(st, st.place(v.owner).fields["@idtags"].t[t])]

    def contains(self, eng, st, v, x):
        return [(st, st.place(v.owner).fields["@idtags"].t[eng.enc(st, x, STR)])]

    def setitem(self, eng, st, v, i, x, e):
        t = eng.enc(st, i, STR)
        st = st.copy()
        dom, mp = eng.as_dict(st, x, ID, EL)
        g = st.mutate(v.owner).fields
        old, oldm = g["@hasid"].t, g["@byid"].t
        for k in ("hasid", "byid"):
            g["@" + k] = T(GHOST[k], GHOST[k].fresh(k))
        new, newm = g["@hasid"].t, g["@byid"].t
        p = z3.Const("pid", TID.sort)
        here, i = TID.get(0, p) == t, TID.get(1, p)
        st.assume(forall(p, z3.And(new[p] == z3.If(here, dom[i], old[p]), newm[p] == z3.If(here, mp[i], oldm[p])),
                         [new[p], newm[p]]))
        g["@idtags"] = T(HA, z3.Store(g["@idtags"].t, t, z3.BoolVal(True)))
        return [(st, None)]


class OfTag(object):
    def setitem(self, eng, st, v, i, x, e):
        st = st.copy()
        g = st.mutate(v.owner).fields
        p = TID.mk(v.tag, eng.enc(st, i, ID))
        g["@hasid"] = T(IH, z3.Store(g["@hasid"].t, p, z3.BoolVal(True)))
        g["@byid"] = T(IA, z3.Store(g["@byid"].t, p, eng.enc(st, x, EL)))
        return [(st, None)]


class Tags(object):
    def contains(self, eng, st, v, x):
        return [(st, v.set[eng.enc(st, x, STR)])]


def before(g, e):
    """state on arrival at an element"""
    t, i = z3.Const("gt", S_), z3.Int("gi")
    yield "count", forall(t, g["count"][t] == BEFORE(e, t), [g["count"][t]])
    for x in table(g):
        yield x


def table(g):
    t, i, p = z3.Const("gt", S_), z3.Int("gi"), z3.Const("gp", TID.sort)
    yield "tags-seen", forall(t, z3.And(g["count"][t] >= 0, g["tags"][t] == (g["count"][t] > 0)), [g["count"][t], g["tags"][t]])
    yield "id-tags-seen", forall(t, g["idtags"][t] == (g["count"][t] > 0), [g["idtags"][t]])
    yield "ids", forall(p, z3.Implies(g["hasid"][p], z3.And(TAG(g["byid"][p]) == TID.get(0, p), IDENT(g["byid"][p]) == TID.get(1, p),
                                                          g["count"][TID.get(0, p)] > 0)), [g["hasid"][p], g["byid"][p]])


def after(g, old, e, txt, start):
    """state after an element: its subtree is indexed, the rest is as it was; txt: the text it gives"""
    t, i, x, k, p = z3.Const("gt", S_), z3.Int("gi"), z3.Const("gx", E_), z3.Int("gk"), z3.Const("gp", TID.sort)
    yield "counted", forall(t, g["count"][t] == BEFORE(e, t) + TOTAL(e, t), [g["count"][t]])
    for f in state(g, old, lambda x: SUB(e)[x], txt, start, lambda t: BEFORE(e, t)):
        yield f
    yield "start", z3.Implies(z3.Not(IGN(e)), g["start"][e] == start)
    for f in table(g):
        yield f


def state(g, old, sub, txt, start, low):
    t, i, x, k, p = z3.Const("gt", S_), z3.Int("gi"), z3.Const("gx", E_), z3.Int("gk"), z3.Const("gp", TID.sort)
    vis = z3.And(sub(x), z3.Not(IGN(x)))
    yield "earlier-entries", forall([t, i], z3.Implies(i < low(t), g["entry"][TI.mk(t, i)] == old["entry"][TI.mk(t, i)]),
                                    [g["entry"][TI.mk(t, i)]])
    nth = [g["n"][x], BEFORE(x, TAG(x))]
    yield "numbered", forall(x, z3.Implies(sub(x), g["n"][x] == BEFORE(x, TAG(x)) + 1), nth)
    yield "numbers-in-range", forall(x, z3.Implies(sub(x), z3.And(BEFORE(x, TAG(x)) >= low(TAG(x)), BEFORE(x, TAG(x)) < g["count"][TAG(x)])), nth)
    yield "entries", forall(x, z3.Implies(sub(x), g["entry"][TI.mk(TAG(x), BEFORE(x, TAG(x)))] == x), nth)
    yield "no-links-yet", forall(x, z3.Implies(sub(x), g["links"][x] == 0), [g["links"][x]])
    yield "marks", forall(x, z3.Implies(sub(x), z3.And(g["marked"][x] == IGN(x), g["spanned"][x] == z3.Not(IGN(x)))),
                          [g["marked"][x], g["spanned"][x]])
    yield "length", forall(x, z3.Implies(vis, g["end"][x] == g["start"][x] + slen(content(x))), [g["end"][x]])
    yield "place", forall(x, z3.Implies(vis, AT(txt, g["start"][x] - start, content(x))), [g["start"][x]])
    yield "children-in-order", forall([x, k], z3.Implies(z3.And(vis, 0 <= k, k < NCH(x), z3.Not(IGN(CHILD(x, k)))),
                                                         g["start"][CHILD(x, k)] == g["start"][x] + slen(BODY(x, k))),
                                      [g["start"][CHILD(x, k)]])
    yield "ids-found", forall(x, z3.Implies(sub(x), g["hasid"][TID.mk(TAG(x), IDENT(x))]), [g["hasid"][TID.mk(TAG(x), IDENT(x))]])
    yield "ids-kept", forall(p, z3.Implies(old["hasid"][p], g["hasid"][p]), [g["hasid"][p], old["hasid"][p]])
    for f in EA:
        yield "others-" + f, forall(x, z3.Implies(z3.Not(sub(x)), g[f][x] == old[f][x]), [g[f][x]])


class Tree(Contract):
    props = ("C24",)

    def models(self, c):
        def attr(eng, st, v, name, e):
            if name == "tag":
                return [(st, T(STR, TAG(v.t)))]
            if name in ("text", "tail"):
                h, f = {"text": (HASTEXT, TEXT), "tail": (HASTAIL, TAIL)}[name]
                return [(s, T(STR, f(v.t)) if b else NONE) for s, b in eng.split(st, h(v.t))]
            if name == "attrib":
                return [(st, ModelV(Attrib(), owner=self.ref, el=v.t))]
            return [(st, ModelV(Method(self.ref), el=v.t, name=name))]
        return {"attr:" + EL.key: attr, "iter:" + EL.key: lambda eng, st, v: Children().iterate(eng, st, ModelV(Children(), el=v.t))}

    def ghosts(self, st, ref=None):
        p = st.place(ref or self.ref)
        return {k: p.fields["@" + k].t for k in GHOST}

    def tree(self, c):
        tree_axioms(c)
        self.ref = c.obj(M[:-1], {"ignoreTags": ModelV(Tags(), set=IGNORE), "newlineTags": ModelV(Tags(), set=NEWLINE),
                                  "blanklineTags": ModelV(Tags(), set=BLANK)})
        q = c.st.mutate(self.ref)
        for k, t in GHOST.items():
            q.fields["@" + k] = T(t, z3.Const("old_" + k, t.sort))
        q.fields["tagCountTable"] = ModelV(Counts(), owner=self.ref)
        q.fields["tagIdTable"] = ModelV(Ids(), owner=self.ref)
        self.old = self.ghosts(c.st)
        return self.ref


class IndexElem(Tree):
    """the recursion is over the elements of a tree (termination: the tree is finite, not proved)"""
    target = M + "index_elem"
    recursive = True

    def setup(self, c):
        ref = self.tree(c)
        e, s, g = c.term(EL, "elem"), c.term(INT, "start"), c.term(BOOL, "ignore")
        self.e, self.s = e.t, s.t
        c.assume(IGN(e.t) == z3.Or(g.t, IGNORE[TAG(e.t)]))
        c.assume(*[f for l, f in before(self.old, e.t)])
        t = z3.Const("xt", S_)
        # what the functions of subtrees stand for, for this element
        c.assume(TXT(e.t) == shown(e.t), forall(t, TOTAL(e.t, t) == TOTALS(e.t, t, NCH(e.t)), [TOTAL(e.t, t)]))
        c.assume(forall(t, BEFORE(e.t, t) >= 0, [BEFORE(e.t, t)]))
        return [ref, e, s, g]

    def inv(self, L):
        if L.it is None:
            return
        e, s = self.e, self.s
        t, x = z3.Const("gt", S_), z3.Const("gx", E_)
        G = lambda V: self.ghosts(V.st)
        # the elements indexed so far: e and the subtrees of the first k children
        sub = lambda k: lambda x: z3.Or(x == e, z3.And(SUB(e)[x], WHICH(e, x) < k))
        yield "counted", lambda V: forall(t, G(V)["count"][t] == BEFORE(e, t) + TOTALS(e, t, V.k), [G(V)["count"][t]])
        labs = [l for l, f in self.so_far(L.head, L.k)]
        for j, l in enumerate(labs):
            yield l, lambda V, j=j: list(self.so_far(V.st, V.k))[j][1]
        for v, ty in sorted(L.vars.items()):
            if ty == STR:
                yield "text[%s]" % v, lambda V, v=v: V.t(v) == BODY(e, V.k)

    def so_far(self, st, k):
        e, s = self.e, self.s
        g, old = self.ghosts(st), self.old
        x, t, j = z3.Const("gx", E_), z3.Const("gt", S_), z3.Int("gk")
        sub = lambda x: z3.And(x != e, SUB(e)[x], WHICH(e, x) < k)
        for lab, f in state(g, old, sub, BODY(e, k), s, lambda t: BEFORE(e, t) + one(TAG(e) == t)):
            if lab.startswith("others-") or lab == "earlier-entries":
                continue
            yield lab, f
        for f in EA:
            yield "others-" + f, forall(x, z3.Implies(z3.And(x != e, z3.Not(sub(x))), g[f][x] == old[f][x]), [g[f][x]])
        i = z3.Int("gi")
        yield "earlier-entries", forall([t, i], z3.Implies(i < BEFORE(e, t), g["entry"][TI.mk(t, i)] == old["entry"][TI.mk(t, i)]),
                                        [g["entry"][TI.mk(t, i)]])
        yield "itself", z3.And(g["n"][e] == BEFORE(e, TAG(e)) + 1, g["entry"][TI.mk(TAG(e), BEFORE(e, TAG(e)))] == e, g["links"][e] == 0,
                               g["hasid"][TID.mk(TAG(e), IDENT(e))], g["n"][e] <= g["count"][TAG(e)])
        yield "its-mark", g["marked"][e] == IGN(e)
        yield "no-span-if-ignored", z3.Implies(IGN(e), z3.Not(g["spanned"][e]))
        yield "starts-of-children", forall(j, z3.Implies(z3.And(0 <= j, j < k, z3.Not(IGN(CHILD(e, j)))),
                                                         g["start"][CHILD(e, j)] == s + slen(BODY(e, j))), [g["start"][CHILD(e, j)]])
        for lab, f in table(g):
            yield lab, f

    def post(self, c, st, ret):
        txt = c.eng.enc(st, ret, STR)
        yield "text", txt == shown(self.e)
        for x in after(self.ghosts(st), self.old, self.e, txt, self.s):
            yield x

    def is_set(self, eng, st, v, want):
        if isinstance(v, ModelV) and isinstance(v.model, Tags):
            return v.set == want
        if isinstance(v, Ref) and eng.conc_items(st, v) == []:
            x = z3.Const("xt", S_)
            return forall(x, z3.Not(want[x]), [want[x]])
        return z3.BoolVal(False)

    def apply(self, eng, st, env, e):
        ref, el = env["self"], env["elem"]
        if not isinstance(el, T) or el.ty != EL:
            return None
        st = st.copy()
        x, l = el.t, line(e)
        start = eng.enc(st, env["start"], INT)
        g = self.ghosts(st, ref)
        for s, t in eng.truth(st, env["ignore"]):
            ign = eng.enc(s, B(t), BOOL)
        eng.oblige("pre:index_elem:ignored", st, IGN(x) == z3.Or(ign, IGNORE[TAG(x)]), l, "pre")
        for k, want in (("ignoreTags", IGNORE), ("newlineTags", NEWLINE), ("blanklineTags", BLANK)):
            v = st.place(ref).fields.get(k)
            eng.oblige("pre:index_elem:" + k, st, self.is_set(eng, st, v, want), l, "pre")
        for lab, f in before(g, x):
            eng.oblige("pre:index_elem:" + lab, st, f, l, "pre")
        q = st.mutate(ref)
        for k, ty in GHOST.items():
            q.fields["@" + k] = T(ty, ty.fresh(k))
        for lab, f in after(self.ghosts(st, ref), g, x, TXT(x), start):
            st.assume(f)
        return [(st, T(STR, TXT(x)))]


def root_element(c, e):
    """e is the root of the text"""
    t = z3.Const("xt", S_)
    c.assume(IGN(e) == IGNORE[TAG(e)], forall(t, BEFORE(e, t) == 0, [BEFORE(e, t)]))


class Call(object):
    def __init__(self, f):
        self.f = f

    def call(self, eng, st, v, args, kw, e):
        if args or kw:
            raise Unsupported("arguments")
        return [(st, self.f)]


class Update(Tree):
    target = M + "update"
    cases = ("given", "default")

    def models(self, c):
        m = Tree.models(self, c)

        def fresh(model, *keys):
            def put(eng, st, b, v, e):
                p = st.place(v) if isinstance(v, Ref) else None
                if p is None or p.kind != "dict" or p.items is None or len(p.items):
                    raise Unsupported("table of elements")
                st = st.copy()
                g = st.mutate(b).fields
                for k in keys:
                    t = GHOST[k]
                    g["@" + k] = T(t, z3.K(t.sort.domain(), z3.BoolVal(False) if t.args[1] == BOOL else z3.IntVal(0)))
                g[{"count": "tagCountTable"}.get(keys[0], "tagIdTable")] = ModelV(model(), owner=b)
                return [(st, None)]
            return put
        m["setfield:tagCountTable"] = fresh(Counts, "count", "tags")
        m["setfield:tagIdTable"] = fresh(Ids, "hasid", "idtags")
        return m

    def setup(self, c):
        ref = self.tree(c)
        q = c.st.mutate(ref)
        for k in ("ignoreTags", "newlineTags", "blanklineTags", "tagCountTable", "tagIdTable"):
            del q.fields[k]
        root = c.term(EL, "root")
        self.e = root.t
        q.fields["getroot"] = ModelV(Call(root))
        root_element(c, self.e)
        if c.case == "default":
            x = z3.Const("xt", S_)
            for s in (IGNORE, NEWLINE, BLANK):
                c.assume(forall(x, z3.Not(s[x]), [s[x]]))
            return [ref]
        return [ref] + [ModelV(Tags(), set=s) for s in (IGNORE, NEWLINE, BLANK)]

    def post(self, c, st, ret):
        g = self.ghosts(st)
        f = st.place(self.ref).fields
        txt = f.get("text")
        yield "text", z3.BoolVal(False) if txt is None else c.eng.enc(st, txt, STR) == TXT(self.e)
        for k, want in (("ignoreTags", IGNORE), ("newlineTags", NEWLINE), ("blanklineTags", BLANK)):
            yield k, IndexElem().is_set(c.eng, st, f.get(k), want)
        for lab, f in after(g, self.old, self.e, TXT(self.e), 0):
            if lab not in ("earlier-entries", "ids-kept"):
                yield lab, f


class ElemText(Tree):
    target = M + "get_elem_text"

    def setup(self, c):
        ref = self.tree(c)
        root = z3.Const("root", E_)
        root_element(c, root)
        e = c.term(EL, "elem")
        self.e = e.t
        c.st.mutate(ref).fields["text"] = T(STR, TXT(root))
        c.assume(*[f for l, f in after(self.old, self.old, root, TXT(root), 0)])
        c.assume(SUB(root)[e.t], AT(TXT(root), 0, lit("")))
        return [ref, e]

    def post(self, c, st, ret):
        yield "text-of-element", c.eng.enc(st, ret, STR) == z3.If(IGN(self.e), lit(""), content(self.e))
        for k in GHOST:
            yield "kept-" + k, self.ghosts(st)[k] == self.old[k]


CONTRACTS = [IndexElem, Update, ElemText]
