"""a parallel graph corpus from a text corpus and graph banks"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort, elems_fn
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import line
from contracts.corpus import sorted_relations, same_list, GP
from contracts.ptceval import LINK, ATTR, LinkGet, attr

M = "daeso.pgc.creation."
S_, Z, B_ = STR.sort, z3.IntSort(), z3.BoolSort()
A = arr_sort(STR)
SIDES = ("source", "target")
END = {"source": "from", "target": "to"}

# number of tokens of a[:k] that are not in b[:n]
NOTIN = RecFn("NOTIN", [A, Z, A, Z, Z], lambda F, a, k, b, n: z3.If(k <= 0, 0, F(a, k - 1, b, n) + z3.If(elems_fn(STR)(b, n)[a[k - 1]], 0, 1)))
NOTINB = Lemma("not-in-bounded", [A, Z, A, Z], lambda a, k, b, n: z3.And(0 <= NOTIN(a, k, b, n), NOTIN(a, k, b, n) <= k), hyp=lambda a, k, b, n: k >= 0,
               measure=lambda a, k, b, n: k, hints=lambda a, k, b, n: [(a, k - 1, b, n)], extra=lambda a, k, b, n: [NOTIN(a, k - 1, b, n) == NOTIN.f0(a, k - 1, b, n)],
               pats=lambda a, k, b, n: [NOTIN.f(a, k, b, n)], lim=lambda a, k, b, n: z3.And(0 <= NOTIN.f0(a, k, b, n), NOTIN.f0(a, k, b, n) <= k))


def token_lists(eng, st):
    out = []
    for n, v in sorted(st.env.items()):
        if isinstance(v, SeqV) and v.ety == STR:
            out.append((n, v.arr, v.ln))
        elif isinstance(v, Ref):
            p = st.place(v)
            if p.kind == "list" and p.items is None and p.ety == STR:
                out.append((n,) + tuple(eng.as_arr(st, v, STR)))
    return out


def counted(eng, st):
    ls = token_lists(eng, st)
    for n, a, la in ls:
        for m, b, lb in ls:
            if n != m:
                yield "%s-not-in-%s" % (n, m), lambda k, a=a, b=b, lb=lb: NOTIN(a, k, b, lb)


def summed(c, L):
    """a running count of tokens that are not in the other list, on top of what there was"""
    for v in int_vars(L):
        x = L.entry.env.get(v)
        t0 = x.t if isinstance(x, T) and x.ty == INT else None
        for lab, F in counted(c.eng, L.head) if t0 is not None else ():
            yield "counted-%s[%s]" % (lab, v), lambda V, v=v, F=F, t0=t0: V.t(v) == t0 + F(V.k)


class TokenDiff(Contract):
    """the tokens of either list that are not in the other, each as often as it occurs"""
    target = M + "_token_diff"
    props = ("C27",)

    def counts(self, eng, st):
        return counted(eng, st)

    def setup(self, c):
        a, b = c.seq("source_tokens", STR), c.seq("target_tokens", STR)
        (self.A, self.n), (self.B, self.m) = c.eng.as_arr(c.st, a), c.eng.as_arr(c.st, b)
        self.c = c
        return [a, b]

    def inv(self, L):
        return summed(self.c, L)

    def post(self, c, st, ret):
        yield "different-tokens", c.eng.enc(st, ret, INT) == NOTIN(self.A, self.n, self.B, self.m) + NOTIN(self.B, self.m, self.A, self.n)


# ----------------------------------------------------------------- a whole corpus
ELEM = {s: OP("Elem_" + s) for s in SIDES}
HAS = {s: fun("w_has_elem_" + s, S_, S_, B_) for s in SIDES}            # an element with the tag and the id
FIND = {s: fun("w_elem_" + s, S_, S_, ELEM[s].sort) for s in SIDES}
TEXT = {s: fun("w_text_" + s, ELEM[s].sort, S_) for s in SIDES}
TOKENS = SEQ(STR, "list")
LOWER, SPLIT = fun("lib_str_lower_" + STR.key, S_, S_), fun("lib_str_split_" + STR.key, S_, TOKENS.sort)
INBANK = {s: fun("w_in_bank_" + s, S_, B_) for s in SIDES}
GRAPHS = {s: OP("Graph_" + s) for s in SIDES}
INB = {s: fun("w_graph_" + s, S_, GRAPHS[s].sort) for s in SIDES}
NEW = fun("w_graph_pair", GRAPHS["source"].sort, GRAPHS["target"].sort, GP.sort)   # with the two banks, no alignments and no meta data
NL, LAT = z3.Int("w_n_links"), fun("w_link", Z, LINK.sort)
TAGS = {s: z3.Const("focus_" + s, S_) for s in SIDES}
LO, HI = z3.Ints("min_token_diff max_token_len")


def tokens(eng, s, l):
    v = eng.dec(TOKENS, SPLIT(LOWER(TEXT[s](FIND[s](TAGS[s], ATTR[END[s] + "_id"](l))))))
    return v.arr, v.ln


def kept(eng, l):
    """a link of the focus tags with sentences that are short and different enough"""
    (a, n), (b, m) = (tokens(eng, s, l) for s in SIDES)
    return z3.And(focus(l), n <= HI, m <= HI, z3.Or(LO == 0, NOTIN(a, n, b, m) + NOTIN(b, m, a, n) >= LO))


def focus(l):
    return z3.And(*[ATTR[END[s] + "_tag"](l) == TAGS[s] for s in SIDES])


ident = lambda s, l: ATTR[END[s] + "_id"](l)
pair_of = lambda l: NEW(*[INB[s](ident(s, l)) for s in SIDES])
KEPT = fun("w_kept", Z, B_)
UPTO = RecFn("w_kept_upto", [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + z3.If(KEPT(k - 1), 1, 0)))
GROWS = Lemma("w-kept-grows", [Z, Z], lambda j, k: z3.And(0 <= UPTO(j), UPTO(j) + z3.If(KEPT(j), 1, 0) <= UPTO(k)), hyp=lambda j, k: z3.And(0 <= j, j < k),
              measure=lambda j, k: k, hints=lambda j, k: [(j, k - 1), (j - 1, j)], extra=lambda j, k: [UPTO(j) == UPTO.f0(j), UPTO(k - 1) == UPTO.f0(k - 1)],
              pats=lambda j, k: [z3.MultiPattern(UPTO.f0(j), UPTO.f(k))], lim=lambda j, k: z3.And(0 <= UPTO.f0(j), UPTO.f0(j) + z3.If(KEPT(j), 1, 0) <= UPTO.f0(k)))


class Document(object):
    def getattr(self, eng, st, v, name, e):
        if name == "alignment":
            return [(st, ModelV(LinksOf()))]
        if name in ("get_doc_trees", "get_doc_tree", "get_alignments"):
            return [(st, ModelV(DocMethod(), name=name))]
        raise Unsupported("attribute %s of a text corpus" % name)


class DocMethod(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name == "get_alignments" and not args and not kw:
            return [(st, ModelV(LinksOf()))]
        if v.name == "get_doc_trees":
            names = ("search", "update")
            if len(args) > 2 or set(kw) - set(names):
                raise Unsupported("arguments of get_doc_trees")
            kw = dict(kw, **dict(zip(names, args)))
            eng.oblige("texts-are-indexed", st, eng.truth_term(st, kw["update"]) if "update" in kw else z3.BoolVal(True), line(e))
            st = st.copy()
            return [(st, st.alloc(ObjP(eng.prog.get("daeso.pair").names["Pair"], {s: ModelV(Text(), side=s) for s in SIDES})))]
        raise Unsupported("method of a text corpus")


class LinksOf(object):
    has_iter = True

    def iterate(self, eng, st, v):
        return [(st, It(NL, lambda k: T(LINK, LAT(k)), None, v, "links", key=LAT))]


class Text(object):
    def getattr(self, eng, st, v, name, e):
        if name == "tagIdTable":
            return [(st, ModelV(Table(), side=v.side))]
        if name == "get_elem_text":
            return [(st, ModelV(TextOf(), side=v.side))]
        raise Unsupported("attribute %s of a text" % name)


class Table(object):
    def getitem(self, eng, st, v, i, e):
        eng.oblige("elements-with-the-focus-tag", st, eng.enc(st, i, STR) == TAGS[v.side], line(e))
        return [(st, ModelV(Ids(), side=v.side))]


class Ids(object):
    def getitem(self, eng, st, v, i, e):
        x = eng.enc(st, i, STR)
        s = v.side
        return [(a, T(ELEM[s], FIND[s](TAGS[s], x)) if b else Exc("KeyError", i, line(e))) for a, b in eng.split(st, HAS[s](TAGS[s], x))]


class TextOf(object):
    def call(self, eng, st, v, args, kw, e):
        if len(args) != 1 or kw:
            raise Unsupported("arguments of get_elem_text")
        return [(st, T(STR, TEXT[v.side](eng.enc(st, args[0], ELEM[v.side]))))]


class BankOf(object):
    def __init__(self, c):
        self.c = c

    def getattr(self, eng, st, v, name, e):
        if name not in ("load", "get_graph"):
            raise Unsupported("attribute %s of a graph bank" % name)
        return [(st, ModelV(BankCall(self.c), side=v.side, name=name))]


class BankCall(object):
    def __init__(self, c):
        self.c = c

    def call(self, eng, st, v, args, kw, e):
        s, at = v.side, "@loaded_" + v.side
        if v.name == "load":
            eng.oblige("loaded-once", st, z3.Not(st.place(self.c.ref).fields[at].t), line(e))
            st = st.copy()
            st.mutate(self.c.ref).fields[at] = T(BOOL, z3.BoolVal(True))
            return [(st, NONE)]
        if len(args) != 1 or kw:
            raise Unsupported("arguments of get_graph")
        eng.oblige("bank-is-loaded", st, st.place(self.c.ref).fields[at].t, line(e))
        x = eng.enc(st, args[0], STR)
        return [(a, T(GRAPHS[s], INB[s](x)) if b else Exc("KeyError", args[0], line(e))) for a, b in eng.split(st, INBANK[s](x))]


class Create(Contract):
    """a graph pair, without alignments, for every link of the focus tags that is short and different enough, in order"""
    target = M + "pgc_from_ptc"
    props = ("C27",)
    cases = ("given", "defaults")

    def counts(self, eng, st):
        return counted(eng, st)

    def pair(self, eng, st, v):
        """both things in a pair"""
        return [[x for s, x in eng.getattr_(st, v, n, None)][0] for n in SIDES]

    def models(self, c):
        def document(eng, st, args, kw, e):
            if args or set(kw) != {"file"}:
                raise Unsupported("reading a text corpus")
            eng.oblige("text-corpus-given", st, eng.enc(st, kw["file"], STR) == self.files[0].t, line(e))
            return [(st, ModelV(Document()))]

        def bank(eng, st, args, kw, e):
            args = list(args) + [kw[k] for k in ("file_path", "format")[len(args):]]
            f, fmt = (eng.enc(st, x, STR) for x in args)
            s = [s for m, s in enumerate(SIDES) if f.eq(self.files[m + 1].t)]
            if len(s) != 1:
                raise Unsupported("which graph bank")
            eng.oblige("bank-has-its-format", st, fmt == self.formats[s[0]], line(e))
            return [(st, ModelV(BankOf(self), side=s[0]))]

        def graph_pair(eng, st, args, kw, e):
            if len(args) != 2 or set(kw) - {"data", "meta_data"} or any(x is not NONE for x in kw.values()):
                raise Unsupported("arguments of GraphPair")
            banks, graphs = (self.pair(eng, st, x) for x in args)
            eng.oblige("banks-of-the-pair", st, z3.BoolVal([getattr(b, "side", None) for b in banks] == list(SIDES)), line(e))
            return [(st, T(GP, NEW(*[eng.enc(st, g, GRAPHS[s]) for g, s in zip(graphs, SIDES)])))]
        return {"new:daeso.ptc.document.HitaextDoc": document, "new:daeso.gb.graphbank.GraphBank": bank,
                "new:daeso.pgc.graphpair.GraphMatching": graph_pair, "attr:" + LINK.key: attr(LinkGet)}

    def setup(self, c):
        self.c = c
        GROWS.use()
        j = z3.Int("j")
        c.assume(NL >= 0, forall(j, KEPT(j) == kept(c.eng, LAT(j)), [KEPT(j)]))
        c.assume(forall(j, KEPT(j) == kept(c.eng, LAT(j)), [LAT(j)]))
        self.ref = c.obj("daeso.pair.Pair", {})
        for s in SIDES:
            c.st.mutate(self.ref).fields["@loaded_" + s] = T(BOOL, z3.BoolVal(False))
        self.files = [c.term(STR, x) for x in ("text_corpus_file", "source_graphbank_file", "target_graphbank_file")]
        c.assume(self.files[1].t != self.files[2].t)
        lit = lambda x: c.eng.enc(c.st, PStr(x), STR)
        if c.case == "defaults":
            c.assume(LO == 0, HI == 99999, *[t == lit("s") for t in TAGS.values()])
            self.formats = {s: lit("alpino") for s in SIDES}
            self.rel = None
            return self.files
        fmt = [c.term(STR, "format_" + s) for s in SIDES]
        self.formats = dict(zip(SIDES, (x.t for x in fmt)))
        rel = c.seq("relations", STR)
        self.rel = c.eng.as_arr(c.st, rel)
        pair = lambda a, b: c.obj("daeso.pair.Pair", {"source": a, "target": b})
        return self.files + [pair(*[T(STR, TAGS[s]) for s in SIDES]), pair(*fmt), rel, T(INT, LO), T(INT, HI)]

    def graph_pairs(self, a, n, k):
        j = z3.Int("j")
        yield "number", n == UPTO(k)
        yield "graph-pairs-in-order", forall(j, z3.Implies(z3.And(0 <= j, j < k, KEPT(j)), a[UPTO(j)] == pair_of(LAT(j))), [LAT(j)])

    def inv(self, L):
        for x in summed(self.c, L):
            yield x
        if L.it is None or L.it.kind != "links":
            return
        eng = self.c.eng
        gps = [(v, lambda V, v=v: V.seq(v, GP)) for v in changed_lists(L, GP)]
        for v, x in sorted(L.head.env.items()):
            if isinstance(x, Ref) and getattr(getattr(L.head.place(x), "cls", None), "name", None) == "ParallelGraphCorpus":
                gps.append((v, lambda V, x=x: eng.as_arr(V.st, V.st.place(x).fields["__list__"], GP)))
        for v, f in gps:
            for m, lab in enumerate(("number", "graph-pairs-in-order")):
                yield "%s[%s]" % (lab, v), lambda V, f=f, m=m: list(self.graph_pairs(*(tuple(f(V)) + (V.k,))))[m][1]

    def post(self, c, st, ret):
        p = st.place(ret) if isinstance(ret, Ref) else None
        if getattr(getattr(p, "cls", None), "name", None) != "ParallelGraphCorpus":
            yield "a-corpus", z3.BoolVal(False)
            return
        for x in self.graph_pairs(*(tuple(c.eng.as_arr(st, p.fields["__list__"], GP)) + (NL,))):
            yield x
        got = c.eng.as_arr(st, p.fields["_relations"], STR)
        if self.rel is not None:
            yield "relations", same_list(c, got, (sorted_relations(c, *self.rel), self.rel[1]))
        yield "no-meta-data", z3.BoolVal(p.fields["_meta_data"] is NONE)

    def exc(self, c, st, ex):
        if ex.cls != "KeyError":
            return None
        j = z3.Int("j")
        missing = z3.Or(*[z3.Not(HAS[s](TAGS[s], ident(s, LAT(j)))) for s in SIDES] + [z3.And(KEPT(j), z3.Not(INBANK[s](ident(s, LAT(j))))) for s in SIDES])
        return [("no-element-or-no-graph", z3.Not(forall(j, z3.Not(z3.And(0 <= j, j < NL, focus(LAT(j)), missing)), [LAT(j)])))]


CONTRACTS = [TokenDiff, Create]
LEMMAS = [NOTINB, GROWS]
