"""container operations of a parallel graph corpus"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort
from pyvc.spec import *
from pyvc.calls import sorted_fn
from pyvc.verify import Contract

M = "daeso.pgc.corpus."
C = "ParallelGraphCorpus"
GP = OP("GraphMatching")
META = OP("Element")
LA = arr_sort(GP)
Z = z3.IntSort()


def clamp(v, n, neg=True):
    """where a slice bound falls in n elements"""
    if neg:
        v = z3.If(v < 0, v + n, v)
    return z3.If(v < 0, 0, z3.If(v > n, n, v))


def sorted_relations(c, arr, n):
    lt = c.eng.order_fn(STR)
    return sorted_fn(STR, lt)(arr, n)


def same_list(c, a, b, ty=STR):
    return z3.And(a[1] == b[1], c.eng.seqeq_fn(ty)(a[0], b[0], a[1]))


class Corpus(Contract):
    props = ("C15",)

    def corpus(self, c, name="a"):
        l = c.seq(name, GP)
        arr, n = c.eng.as_arr(c.st, l)
        rels = c.seq("rel_" + name, STR)
        rel = c.eng.as_arr(c.st, rels)
        # established by set_relations
        c.assume(sorted_relations(c, *rel) == rel[0])
        meta = c.term(META, "meta_" + name)
        ref = c.obj(M + C, {"__list__": l, "_relations": rels, "_meta_data": meta, "_graph_loading": NONE})
        return ref, arr, n, rel, meta

    def setup(self, c):
        self.ref, self.a, self.n, self.rel, self.meta = self.corpus(c)
        return [self.ref] + self.args(c)

    def args(self, c):
        return []

    def content(self, c, st, ref):
        return c.eng.as_arr(st, st.place(ref).fields["__list__"], GP)

    def same(self, c, st, ref, a, n):
        """the corpus holds the n graph pairs of a"""
        b, m = self.content(c, st, ref)
        i = z3.Int("i")
        return z3.And(m == n, forall(i, z3.Implies(z3.And(0 <= i, i < n), b[i] == a[i]), [b[i]]))

    def holds(self, c, st, ref, n, f):
        """the corpus holds n graph pairs, f(i) at each i"""
        b, m = self.content(c, st, ref)
        i = z3.Int("i")
        return [("number", m == n), ("graph-pairs", forall(i, z3.Implies(z3.And(0 <= i, i < n), f(b[i], i)), [b[i]]))]

    def attrs(self, c, st, ref, rel=None, meta=None):
        p = st.place(ref)
        yield "relations", same_list(c, c.eng.as_arr(st, p.fields["_relations"], STR), rel or self.rel)
        yield "meta-data", c.eng.enc(st, p.fields["_meta_data"], META) == (meta or self.meta).t

    def untouched(self, c, st):
        yield "corpus-unchanged", self.same(c, st, self.ref, self.a, self.n)
        for x in self.attrs(c, st, self.ref):
            yield x

    def fresh(self, c, st, ret, n, f):
        if not (isinstance(ret, Ref) and getattr(st.place(ret).cls, "name", None) == C and ret != self.ref):
            yield "a-new-corpus", z3.BoolVal(False)
            return
        for x in self.holds(c, st, ret, n, f):
            yield x
        for l, x in self.attrs(c, st, ret):
            yield l + "-of-the-new-corpus", x
        for x in self.untouched(c, st):
            yield x


class Append(Corpus):
    target = M + C + ".append"
    cases = ("pair", "other")

    def args(self, c):
        self.x = c.term(GP if c.case == "pair" else OP("Other"), "x")
        return [self.x]

    def post(self, c, st, ret):
        if c.case == "other":
            yield "only-graph-pairs", z3.BoolVal(False)
            return
        for x in self.holds(c, st, self.ref, self.n + 1, lambda b, i: b == z3.If(i < self.n, self.a[i], self.x.t)):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x

    def exc(self, c, st, ex):
        if c.case != "other" or ex.cls != "TypeError":
            return None
        return list(self.untouched(c, st))


class Insert(Append):
    target = M + C + ".insert"

    def args(self, c):
        self.x = c.term(GP if c.case == "pair" else OP("Other"), "x")
        self.i = c.term(INT, "at")
        return [self.i, self.x]

    def post(self, c, st, ret):
        if c.case == "other":
            yield "only-graph-pairs", z3.BoolVal(False)
            return
        k = clamp(self.i.t, self.n)
        for x in self.holds(c, st, self.ref, self.n + 1, lambda b, i: b == z3.If(
                i < k, self.a[i], z3.If(i == k, self.x.t, self.a[i - 1]))):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x


def index(i, n):
    return z3.And(-n <= i, i < n), z3.If(i < 0, i + n, i)


class Pop(Corpus):
    target = M + C + ".pop"
    cases = ("index", "last")

    def args(self, c):
        self.i = c.term(INT, "at") if c.case == "index" else I(-1)
        return [self.i] if c.case == "index" else []

    def removed(self, c, st):
        k = index(self.i.t, self.n)[1]
        for x in self.holds(c, st, self.ref, self.n - 1, lambda b, i: b == z3.If(i < k, self.a[i], self.a[i + 1])):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x

    def post(self, c, st, ret):
        ok, k = index(self.i.t, self.n)
        yield "inside", ok
        yield "the-removed-pair", c.eng.enc(st, ret, GP) == self.a[k]
        for x in self.removed(c, st):
            yield x

    def exc(self, c, st, ex):
        if ex.cls != "IndexError":
            return None
        return [("outside", z3.Not(index(self.i.t, self.n)[0]))] + list(self.untouched(c, st))


class DelItem(Pop):
    target = M + C + ".__delitem__"
    cases = ("index",)

    def post(self, c, st, ret):
        yield "inside", index(self.i.t, self.n)[0]
        for x in self.removed(c, st):
            yield x


class GetItem(Pop):
    target = M + C + ".__getitem__"
    cases = ("index",)

    def post(self, c, st, ret):
        ok, k = index(self.i.t, self.n)
        yield "inside", ok
        yield "the-pair", c.eng.enc(st, ret, GP) == self.a[k]
        for x in self.untouched(c, st):
            yield x


class SetItem(Pop):
    target = M + C + ".__setitem__"
    cases = ("pair", "other")

    def args(self, c):
        self.i = c.term(INT, "at")
        self.x = c.term(GP if c.case == "pair" else OP("Other"), "x")
        return [self.i, self.x]

    def post(self, c, st, ret):
        ok, k = index(self.i.t, self.n)
        yield "inside", ok
        if c.case == "other":
            yield "only-graph-pairs", z3.BoolVal(False)
            return
        for x in self.holds(c, st, self.ref, self.n, lambda b, i: b == z3.If(i == k, self.x.t, self.a[i])):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x

    def exc(self, c, st, ex):
        if ex.cls == "TypeError" and c.case == "other":
            return list(self.untouched(c, st))
        if ex.cls != "IndexError":
            return None
        return [("outside", z3.Not(index(self.i.t, self.n)[0]))] + list(self.untouched(c, st))


class GetSlice(Corpus):
    target = M + C + ".__getslice__"

    def args(self, c):
        self.lo, self.hi = c.term(INT, "lo"), c.term(INT, "hi")
        # the length has been added once to negative bounds; still negative ones are before the start
        return [self.lo, self.hi]

    def bounds(self):
        lo, hi = clamp(self.lo.t, self.n, False), clamp(self.hi.t, self.n, False)
        return lo, z3.If(hi < lo, lo, hi)

    def post(self, c, st, ret):
        lo, hi = self.bounds()
        for x in self.fresh(c, st, ret, hi - lo, lambda b, i: b == self.a[lo + i]):
            yield x


class DelSlice(GetSlice):
    target = M + C + ".__delslice__"

    def post(self, c, st, ret):
        lo, hi = self.bounds()
        for x in self.holds(c, st, self.ref, self.n - (hi - lo), lambda b, i: b == z3.If(
                i < lo, self.a[i], self.a[i + (hi - lo)])):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x


class Clear(Corpus):
    target = M + C + ".clear"

    def post(self, c, st, ret):
        yield "empty", self.content(c, st, self.ref)[1] == 0
        for x in self.attrs(c, st, self.ref):
            yield x


class SetSlice(GetSlice):
    """assignment of a corpus with the same relations"""
    target = M + C + ".__setslice__"
    cases = ("corpus", "other")

    def args(self, c):
        b = GetSlice.args(self, c)
        return b + self.other_arg(c)

    def other_arg(self, c):
        if c.case == "other":
            self.relb = None
            return [c.seq("other", GP)]
        self.b, self.arr, self.m, self.relb, self.metab = self.corpus(c, "b")
        return [self.b]

    def post(self, c, st, ret):
        if c.case == "other":
            yield "only-corpora", z3.BoolVal(False)
            return
        lo, hi = self.bounds()
        yield "same-relations", same_list(c, self.rel, self.relb)
        for x in self.holds(c, st, self.ref, self.n - (hi - lo) + self.m, lambda b, i: b == z3.If(
                i < lo, self.a[i], z3.If(i < lo + self.m, self.arr[i - lo], self.a[i - self.m + (hi - lo)]))):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x
        yield "other-unchanged", self.same(c, st, self.b, self.arr, self.m)

    def exc(self, c, st, ex):
        if ex.cls == "TypeError" and c.case == "other":
            return list(self.untouched(c, st))
        if ex.cls == "ValueError" and c.case == "corpus":
            return [("other-relations", z3.Not(same_list(c, self.rel, self.relb)))] + list(self.untouched(c, st))
        return None


class Add(SetSlice):
    target = M + C + ".__add__"

    def args(self, c):
        return self.other_arg(c)

    def joined(self, b, i):
        return b == z3.If(i < self.n, self.a[i], self.arr[i - self.n])

    def post(self, c, st, ret):
        if c.case == "other":
            yield "only-corpora", z3.BoolVal(False)
            return
        yield "same-relations", same_list(c, self.rel, self.relb)
        for x in self.fresh(c, st, ret, self.n + self.m, self.joined):
            yield x
        yield "other-unchanged", self.same(c, st, self.b, self.arr, self.m)


class IAdd(Add):
    target = M + C + ".__iadd__"

    def post(self, c, st, ret):
        if c.case == "other":
            yield "only-corpora", z3.BoolVal(False)
            return
        yield "same-relations", same_list(c, self.rel, self.relb)
        yield "the-same-object", z3.BoolVal(ret == self.ref)
        for x in self.holds(c, st, self.ref, self.n + self.m, self.joined):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x
        yield "other-unchanged", self.same(c, st, self.b, self.arr, self.m)


EQUALS = fun("etree_equals", META.sort, META.sort, z3.BoolSort())


class Eq(Corpus):
    """graph pairs up to their equality; same: compared with itself"""
    target = M + C + ".__eq__"
    cases = ("none-none", "none-some", "some-none", "some-some", "same")
    negated = False

    def models(self, c):
        def equals(eng, st, args, kw, e):
            return [(st, B(EQUALS(args[0].t, args[1].t)))]
        return {"daeso.utils.etree.equals": equals}

    def args(self, c):
        if c.case == "same":
            return [self.ref]
        self.b, self.arr, self.m, self.relb, self.metab = self.corpus(c, "b")
        x, y = c.case.split("-")
        if x == "none":
            c.st.mutate(self.ref).fields["_meta_data"] = NONE
        if y == "none":
            c.st.mutate(self.b).fields["_meta_data"] = NONE
        return [self.b]

    def post(self, c, st, ret):
        (_, got), = c.eng.truth(st, ret)
        got = got if z3.is_expr(got) else z3.BoolVal(bool(got))
        if self.negated:
            got = z3.Not(got)
        if c.case == "same":
            yield "equal-to-itself", got
            return
        meta = {"none-none": z3.BoolVal(True), "some-some": z3.Or(
            self.meta.t == self.metab.t, EQUALS(self.meta.t, self.metab.t))}.get(c.case, z3.BoolVal(False))
        pairs = same_list(c, (self.a, self.n), (self.arr, self.m), GP)
        yield "equal-iff", got == z3.And(same_list(c, self.rel, self.relb), meta, pairs)
        yield "corpus-unchanged", self.same(c, st, self.ref, self.a, self.n)
        yield "other-unchanged", self.same(c, st, self.b, self.arr, self.m)


class Ne(Eq):
    target = M + C + ".__ne__"
    negated = True


class Extend(Add):
    target = M + C + ".extend"
    cases = ("list", "corpus")

    def other_arg(self, c):
        self.b = c.seq("other", GP)
        self.arr, self.m = c.eng.as_arr(c.st, self.b)
        if c.case == "corpus":
            self.b = self.corpus(c, "b")[0]
            self.arr, self.m = self.content(c, c.st, self.b)
        return [self.b]

    def post(self, c, st, ret):
        for x in self.holds(c, st, self.ref, self.n + self.m, self.joined):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x
        b, m = c.eng.as_arr(st, c.eng.listref(st, self.b), GP)
        yield "other-unchanged", z3.And(m == self.m, c.eng.seqeq_fn(GP)(b, self.arr, m))

    def exc(self, c, st, ex):
        return None


class Reverse(Corpus):
    target = M + C + ".reverse"

    def post(self, c, st, ret):
        for x in self.holds(c, st, self.ref, self.n, lambda b, i: b == self.a[self.n - 1 - i]):
            yield x
        for x in self.attrs(c, st, self.ref):
            yield x


class Mul(Corpus):
    target = M + C + ".__mul__"

    def args(self, c):
        self.k = c.term(INT, "times")
        return [self.k]

    def post(self, c, st, ret):
        k = z3.If(self.k.t < 0, 0, self.k.t)
        for x in self.fresh(c, st, ret, self.n * k, lambda b, i: b == self.a[i % self.n]):
            yield x


class RMul(Mul):
    target = M + C + ".__rmul__"


class SetRelations(Corpus):
    """a sorted copy of what is given"""
    target = M + C + ".set_relations"
    cases = ("list", "none")

    def args(self, c):
        if c.case == "none":
            return [NONE]
        self.given = c.seq("given", STR)
        self.g, self.gn = c.eng.as_arr(c.st, self.given)
        return [self.given]

    def post(self, c, st, ret):
        r, n = c.eng.as_arr(st, st.place(self.ref).fields["_relations"], STR)
        if c.case == "none":
            yield "no-relations", n == 0
        else:
            yield "number", n == self.gn
            yield "sorted-relations", c.eng.seqeq_fn(STR)(r, sorted_relations(c, self.g, self.gn), n)
            b, m = c.eng.as_arr(st, self.given, STR)
            yield "given-list-unchanged", z3.And(m == self.gn, c.eng.seqeq_fn(STR)(b, self.g, m))
            yield "own-list", z3.BoolVal(st.place(self.ref).fields["_relations"] != self.given)
        yield "graph-pairs-unchanged", self.same(c, st, self.ref, self.a, self.n)


CONTRACTS = [Append, Insert, Pop, DelItem, GetItem, SetItem, GetSlice, DelSlice, Clear, SetSlice, Add, IAdd, Eq, Ne,
             Extend, Reverse, Mul, RMul, SetRelations]


BANK = OP("Bank")
BK = Ty("arr", GP, BANK)
CLS = fun("same_file", BANK.sort, Z)     # banks are equal iff these are


class Purge(Corpus):
    """equal graph banks become one and the same"""
    props = ("C16",)
    target = M + C + ".purge"
    cases = ("all", "one")

    def models(self, c):
        ref = self.ref_of

        def banks(eng, st, v, name, e):
            if name != "_banks":
                raise Unsupported("attribute " + name)
            f = st.place(ref()).fields
            return [(st, Tupl([T(BANK, f["@src"].t[v.t]), T(BANK, f["@tgt"].t[v.t])]))]

        def set_banks(eng, st, v, name, x, e):
            if name != "_banks" or not isinstance(x, Tupl) or len(x.items) != 2:
                raise Unsupported("attribute " + name)
            st = st.copy()
            q = st.mutate(ref())
            for f, y in zip(("@src", "@tgt"), x.items):
                q.fields[f] = T(BK, z3.Store(q.fields[f].t, v.t, eng.enc(st, y, BANK)))
            return [(st, None)]

        def equal(eng, st, a, b):
            return [(st, CLS(a.t) == CLS(b.t))]

        def new_pair(eng, st, args, kw, e):
            if len(args) == 1 and isinstance(args[0], Star):
                args = args[0].items
            if len(args) != 2 or kw:
                raise Unsupported("Pair arguments")
            return [(st, Tupl(list(args)))]

        def pair_attr(eng, st, v, name, e):
            if name in ("source", "target") and len(v.items) == 2:
                return [(st, v.items[name == "target"])]
            return None

        def truth(eng, st, v):
            return [(st, NONEMPTY(v.t))]
        return {"attr:" + GP.key: banks, "setattr:" + GP.key: set_banks, "eq:" + BANK.key: equal,
                "new:daeso.pair.Pair": new_pair, "attr:tuple": pair_attr, "truth:" + GP.key: truth}

    def ref_of(self):
        return self.ref

    def setup(self, c):
        args = Corpus.setup(self, c)
        p = c.st.place(self.ref)
        self.old = {}
        self.one = c.case == "one"
        for f in ("src", "tgt"):
            self.old[f] = z3.Const("old_" + f, BK.sort)
            p.fields["@" + f] = T(BK, self.old[f])
        if c.case == "one":
            self.x = c.term(GP, "x")
            args.append(self.x)
        return args

    def now(self, st, f):
        return st.place(self.ref).fields["@" + f].t

    def inv(self, L):
        inner = L.outer is not None and L.outer.it is not None or self.one
        b, b2, p = z3.Const("b", BANK.sort), z3.Const("b2", BANK.sort), z3.Const("p", GP.sort)
        ds = [v for v, x in sorted(L.head.env.items()) if isinstance(x, Ref) and L.head.place(x).kind == "dict"]
        for d in ds:
            D = lambda V, d=d: V.dic(d, BANK, BANK)
            if L.it is not None and not inner:
                yield "banks-stay-equal[%s]" % d, lambda V, D=D: forall(b, z3.Implies(D(V)[0][b], z3.And(
                    D(V)[0][D(V)[1][b]], D(V)[1][D(V)[1][b]] == D(V)[1][b], CLS(D(V)[1][b]) == CLS(b))), [D(V)[1][b]])
                yield "one-per-file[%s]" % d, lambda V, D=D: forall([b, b2], z3.Implies(z3.And(
                    D(V)[0][b], D(V)[0][b2], CLS(b) == CLS(b2)), D(V)[1][b] == D(V)[1][b2]),
                    [z3.MultiPattern(D(V)[1][b], D(V)[1][b2])])
                for f in ("src", "tgt"):
                    yield "replaced-or-not[%s,%s]" % (d, f), lambda V, D=D, f=f: forall(p, z3.Or(
                        self.now(V.st, f)[p] == self.old[f][p], z3.And(
                            D(V)[0][self.old[f][p]], self.now(V.st, f)[p] == D(V)[1][self.old[f][p]])),
                        [self.now(V.st, f)[p]])
                    j = z3.Int("j")
                    yield "replaced[%s,%s]" % (d, f), lambda V, D=D, f=f: forall(j, z3.Implies(
                        z3.And(0 <= j, j < V.k), z3.And(
                            D(V)[0][self.old[f][self.a[j]]],
                            self.now(V.st, f)[self.a[j]] == D(V)[1][self.old[f][self.a[j]]])), [self.a[j]])
        if L.it is not None and inner:
            j = z3.Int("j")
            for v, x in sorted(L.head.env.items()):
                if isinstance(x, T) and x.ty == BANK:
                    yield "no-match-so-far[%s]" % v, lambda V, x=x: forall(j, z3.Implies(z3.And(
                        0 <= j, j < V.k), CLS(L.it.elem(j).t) != CLS(x.t)), [L.it.elem(j).t])

    def post(self, c, st, ret):
        p, q = z3.Consts("p q", GP.sort)
        i, j = z3.Ints("i j")
        for f in ("src", "tgt"):
            yield "banks-stay-equal-" + f, forall(p, CLS(self.now(st, f)[p]) == CLS(self.old[f][p]), [self.now(st, f)[p]])
        for f in ("src", "tgt"):
            for g in ("src", "tgt"):
                x, y = self.now(st, f), self.now(st, g)
                if c.case == "one":
                    yield "one-per-file", z3.Implies(CLS(x[self.x.t]) == CLS(y[self.x.t]), x[self.x.t] == y[self.x.t])
                    continue
                yield "one-per-file-%s-%s" % (f, g), forall([i, j], z3.Implies(z3.And(
                    0 <= i, i < self.n, 0 <= j, j < self.n, CLS(x[self.a[i]]) == CLS(y[self.a[j]])),
                    x[self.a[i]] == y[self.a[j]]), [z3.MultiPattern(self.a[i], self.a[j])])
            if c.case == "one":
                yield "other-pairs-untouched", forall(p, z3.Implies(p != self.x.t, self.now(st, f)[p] == self.old[f][p]),
                                                      [self.now(st, f)[p]])
        for x in self.untouched(c, st):
            yield x


NONEMPTY = fun("has_alignments", GP.sort, z3.BoolSort())
CONTRACTS.append(Purge)
