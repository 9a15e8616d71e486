"""automatic alignment of texts: scores, filters, alignments made"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort, sum_fn, SQRT
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import line

M = "daeso.ptc.textalign."
S_, Z, B_, R_ = STR.sort, z3.IntSort(), z3.BoolSort(), z3.RealSort()
SE, TE, FP = OP("SourceElem"), OP("TargetElem"), OP("FocusPair")
SCORE = TUP(REAL, FP)
AS = arr_sort(SCORE)
P1, P2, MK = fun("a_source", FP.sort, SE.sort), fun("a_target", FP.sort, TE.sort), fun("a_pair", SE.sort, TE.sort, FP.sort)
NS, NT = fun("a_source_n", SE.sort, Z), fun("a_target_n", TE.sort, Z)
one = lambda b: z3.If(b, 1, 0)
THR, N = z3.Real("threshold"), z3.Int("len_scores")
GIVEN, SORTED = z3.Const("scores", AS), z3.Const("sorted_scores", AS)
val = lambda a, i: SCORE.get(0, a[i])
pair = lambda a, i: SCORE.get(1, a[i])
src, tgt = (lambda a, i: P1(pair(a, i))), (lambda a, i: P2(pair(a, i)))


def counting(name, chosen):
    """how many of the first k are chosen, with a lemma on its growth"""
    F = RecFn(name, [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + one(chosen(k - 1))))
    grow = Lemma(name + "-grows", [Z, Z], lambda j, k: F(j) + one(chosen(j)) <= F(k), hyp=lambda j, k: z3.And(0 <= j, j < k),
                 measure=lambda j, k: k, hints=lambda j, k: [(j, k - 1)],
                 extra=lambda j, k: [F(j) == F.f0(j), F(k - 1) == F.f0(k - 1)],
                 pats=lambda j, k: [z3.MultiPattern(F.f0(j), F.f(k))], lim=lambda j, k: F.f0(j) + one(chosen(j)) <= F.f0(k))
    low = Lemma(name + "-positive", [Z], lambda k: F(k) >= 0, measure=lambda k: k, hints=lambda k: [(k - 1,)],
                hyp=lambda k: k >= 0, extra=lambda k: [F(k - 1) == F.f0(k - 1)], pats=lambda k: [F.f(k)], lim=lambda k: F.f0(k) >= 0)
    return F, [grow, low]


def fp_attr(eng, st, v, name, e):
    if name in ("source", "target"):
        ty, f = {"source": (SE, P1), "target": (TE, P2)}[name]
        return [(st, T(ty, f(v.t)))]
    raise Unsupported("attribute %s of a pair" % name)


class Number(object):
    """get('_n') of an element"""

    def call(self, eng, st, v, args, kw, e):
        if v.name == "get" and args and isinstance(args[0], PStr) and args[0].s == "_n":
            return [(st, T(INT, v.n))]
        raise Unsupported("method %s of an element" % v.name)


# ----------------------------------------------------------------- terms
CHR = OP("Char")
GRAMS = OP("NGrams")
CHARS, TLEN, NGN = z3.Const("characters", arr_sort(CHR)), z3.Int("n_characters"), z3.Int("n_of_n_grams")
OFS, OFC = fun("n_grams_of_strings", arr_sort(STR), Z, Z, GRAMS.sort), fun("n_grams_of_characters", arr_sort(CHR), Z, Z, GRAMS.sort)
LOWER = fun("lib_str_lower_" + STR.key, S_, S_)
GTEXT = z3.Const("text_of_terms", S_)
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"


class Terms(Contract):
    """n_gram_strings (C05) gets exactly these tokens, in order"""
    props = ("C25",)
    ety, grams = STR, OFS
    budget = 2

    def setup(self, c):
        return [T(INT, NGN)]

    def text(self, c):
        return T(STR, GTEXT)

    def then(self, c, st, ret):
        out = c.eng.call(st, ret, [self.text(c)], {}, None)
        return out

    def models(self, c):
        def n_grams(eng, st, env, e):
            if set(env) - {"pad_size", "pad_string", "separator"} != {"tokens", "n"}:
                raise Unsupported("n_gram_strings")
            for k, d in (("pad_size", 0), ("pad_string", "_"), ("separator", " ")):
                v = eng.pyconst(env[k]) if k in env else (d,)
                if v is None or v[0] != d:
                    raise Unsupported("n_gram_strings with other settings")
            arr, n = eng.as_arr(st, env["tokens"], self.ety)
            return [(st, T(GRAMS, self.grams(arr, n, eng.enc(st, env["n"], INT))))]
        return {"fn:daeso.string.ngram.n_gram_strings": n_grams}


class WordTerms(Terms):
    target = M + "word_n_gram_factory"

    def post(self, c, st, ret):
        for s, v in c.eng.call_str(st, self.text(c), "split", [], {}, None):
            arr, n = c.eng.as_arr(s, v, STR)
            yield "words", c.eng.enc(st, ret, GRAMS) == OFS(arr, n, NGN)


class CharTerms(Terms):
    target = M + "char_n_gram_factory"
    ety, grams = CHR, OFC

    def text(self, c):
        self.char_ty = CHR
        return SeqV(CHR, CHARS, TLEN, "str")

    def post(self, c, st, ret):
        yield "characters", c.eng.enc(st, ret, GRAMS) == OFC(CHARS, TLEN, NGN)


def words_of(eng, st):
    """the words of the text: list and length"""
    (s, v), = eng.call_str(st, T(STR, GTEXT), "split", [], {}, None)
    return eng.as_arr(s, v, STR)


WORDL, NWORDL = z3.Const("words_of_text", arr_sort(STR)), z3.Int("n_words_of_text")


no_punct = lambda k: z3.Not(fun("substr", S_, S_, B_)(WORDL[k], lit(PUNCT)))
LEFT = counting("a_words_left", no_punct)


class PreTerms(Terms):
    """of the words of the text those that are no punctuation, in lower case and in order"""
    target = M + "preproc_word_n_gram_factory"

    def setup(self, c):
        self.keep, self.F = no_punct, LEFT[0]
        for l in LEFT[1]:
            l.use()
        self.made = {}
        return [T(INT, NGN)]

    def then(self, c, st, ret):
        arr, n = words_of(c.eng, st)
        st.assume(z3.And(arr == WORDL, n == NWORDL, n >= 0))
        return Terms.then(self, c, st, ret)

    def models(self, c):
        m = Terms.models(self, c)
        f, = m.values()

        def n_grams(eng, st, env, e):
            out = f(eng, st, env, e)
            for s, v in out:
                self.made[v.t.get_id()] = eng.as_arr(st, env["tokens"], STR)
            return out
        return {k: n_grams for k in m}

    def counts(self, eng, st):
        yield "left", self.F

    def so_far(self, eng, out, n, k):
        i = z3.Int("i")
        yield "number", n == self.F(k)
        yield "kept-in-order", forall(i, z3.Implies(z3.And(0 <= i, i < k, self.keep(i)), out[self.F(i)] == LOWER(WORDL[i])), [WORDL[i]])

    def inv(self, L):
        for v in changed_lists(L, STR):
            for m in range(2):
                yield ("number", "kept-in-order")[m] + "[%s]" % v, lambda V, m=m, v=v: list(self.so_far(None, *(V.seq(v, STR) + (V.k,))))[m][1]

    def post(self, c, st, ret):
        t = c.eng.enc(st, ret, GRAMS)
        yield "terms-made", z3.BoolVal(t.get_id() in self.made)
        if t.get_id() in self.made:
            arr, n = self.made[t.get_id()]
            yield "of-tokens", t == OFS(arr, n, NGN)
            for x in self.so_far(c.eng, arr, n, NWORDL):
                yield x


class Threshold(Contract):
    target = M + "threshold_filter_factory"
    props = ("C25",)

    def setup(self, c):
        self.keep = lambda k: val(GIVEN, k) > THR
        self.F, lemmas = counting("a_over", self.keep)
        for l in lemmas:
            l.use()
        return [T(REAL, THR)]

    def models(self, c):
        return {"attr:" + FP.key: fp_attr}

    def then(self, c, st, ret):
        self.given = c.eng.new_symlist(st, SCORE, GIVEN, N)
        st.assume(N >= 0)
        return c.eng.call(st, ret, [self.given], {}, None)

    def counts(self, eng, st):
        yield "over", self.F

    def so_far(self, out, n, k):
        i = z3.Int("i")
        yield "number", n == self.F(k)
        yield "kept-in-order", forall(i, z3.Implies(z3.And(0 <= i, i < k, self.keep(i)), out[self.F(i)] == GIVEN[i]), [GIVEN[i]])

    def inv(self, L):
        for v in changed_lists(L, SCORE):
            for m in range(2):
                yield ("number", "kept-in-order")[m] + "[%s]" % v, lambda V, m=m, v=v: list(self.so_far(*(V.seq(v, SCORE) + (V.k,))))[m][1]

    def post(self, c, st, ret):
        out, n = c.eng.as_arr(st, ret, SCORE)
        for x in self.so_far(out, n, N):
            yield x


class NoFilter(Contract):
    target = M + "no_filter"
    props = ("C25",)

    def setup(self, c):
        return [c.seq("scores", SCORE)]

    def post(self, c, st, ret):
        out, n = c.eng.as_arr(st, ret, SCORE)
        i = z3.Int("i")
        yield "all-kept", z3.And(n == N, forall(i, z3.Implies(z3.And(0 <= i, i < N), out[i] == GIVEN[i]), [out[i]]))


# ----------------------------------------------------------------- filter without crossing alignments
ACC, BLOCK = fun("a_accepted", Z, B_), fun("a_blocked_by", Z, Z)
sn, tn = (lambda i: NS(src(SORTED, i))), (lambda i: NT(tgt(SORTED, i)))
cross = lambda a, b: z3.Or(z3.And(sn(a) < sn(b), tn(a) > tn(b)), z3.And(sn(a) > sn(b), tn(a) < tn(b)))
CNT, GROW = counting("a_accepted_upto", ACC)
WHERE = RecFn("a_where", [Z, Z, Z], lambda F, m, k: z3.If(k <= 0, -1, z3.If(z3.And(ACC(k - 1), CNT.f(k - 1) == m), k - 1, F(m, k - 1))))
FOUND = Lemma("a-where", [Z, Z], lambda m, k: z3.And(0 <= WHERE(m, k), WHERE(m, k) < k, ACC(WHERE(m, k)), CNT(WHERE(m, k)) == m),
              hyp=lambda m, k: z3.And(0 <= m, k >= 0, m < CNT(k)), measure=lambda m, k: k, hints=lambda m, k: [(m, k - 1)],
              extra=lambda m, k: [WHERE(m, k - 1) == WHERE.f0(m, k - 1), CNT(k - 1) == CNT.f0(k - 1)],
              pats=lambda m, k: [WHERE.f(m, k)])
LOW = Lemma("a-rest-too-low", [Z, Z], lambda k, m: CNT(m) == CNT(k), hyp=lambda k, m: z3.And(0 <= k, k <= m, m <= N, k < N, val(SORTED, k) < THR),
            measure=lambda k, m: m, hints=lambda k, m: [(k, m - 1)],
            # in terms of what the order and the definition of ACC give
            extra=lambda k, m: [CNT(m - 1) == CNT.f0(m - 1), CNT(k) == CNT.f0(k), z3.Implies(z3.And(k <= m - 1, m - 1 < N), val(SORTED, m - 1) <= val(SORTED, k)),
                                z3.Implies(ACC(m - 1), val(SORTED, m - 1) >= THR)],
            pats=lambda k, m: [z3.MultiPattern(CNT.f0(k), CNT.f(m))], lim=lambda k, m: CNT.f0(m) == CNT.f0(k))


class NoCross(Contract):
    """the choice is greedy: in descending order of the scores (in any order of equal ones)"""
    target = M + "no_cross_filter_factory"
    props = ("C25",)

    def models(self, c):
        def num(f):
            return lambda eng, st, v, name, e: [(st, ModelV(Number(), n=f(v.t), name=name))]
        return {"attr:" + FP.key: fp_attr, "attr:" + SE.key: num(NS), "attr:" + TE.key: num(NT), "sort": self.sort}

    def sort(self, eng, st, ref, args, kw, e):
        names = dict(zip(("cmp", "key", "reverse"), args))
        names.update(kw)
        used = {k: v for k, v in names.items() if not isinstance(v, NoneV)}
        if not set(used) <= {"key", "reverse"}:
            raise Unsupported("sort with a comparison")
        (st, rev), = eng.truth(st, used.get("reverse", B(False)))
        if rev is not True and rev is not False:
            rev = z3.simplify(rev)
            if not z3.is_true(rev) and not z3.is_false(rev):
                raise Unsupported("sort in either order")
            rev = z3.is_true(rev)
        arr, n = eng.as_arr(st, ref, SCORE)
        if "key" in used:
            x = z3.Const("x_score", SCORE.sort)
            for s, r in eng.call(st.copy(), used["key"], [eng.dec(SCORE, x)], {}, e):
                v = SCORE.get(0, x)
                eng.oblige("descending-scores", s, z3.BoolVal(False) if isinstance(r, Exc) else self.descends(eng, s, r, rev, v), line(e))
        else:
            eng.oblige("descending-scores", st, z3.BoolVal(rev), line(e))
        st = st.copy()
        new = SORTED if not self.sorted else Ty("arr", INT, SCORE).fresh("sorted")
        self.sorted = True
        i, j = z3.Int("i"), z3.Int("j")
        was, now = fun("a_was", Z, Z), fun("a_now", Z, Z)
        if new is not SORTED:
            raise Unsupported("second sort")
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= was(i), was(i) < n, new[i] == arr[was(i)], now(was(i)) == i)), [new[i]]))
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= now(i), now(i) < n, new[now(i)] == arr[i], was(now(i)) == i)), [arr[i]]))
        st.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), val(new, i) >= val(new, j)), [z3.MultiPattern(new[i], new[j])]))
        q = st.mutate(ref)
        q.items, q.ety, q.arr, q.ln = None, SCORE, new, n
        return [(st, NONE)]

    def descends(self, eng, st, r, rev, v):
        if isinstance(r, Tupl) and r.items:
            r = r.items[0]
        t = eng.enc(st, r, REAL)
        return t == (v if rev else -v)

    def setup(self, c):
        self.sorted = False
        for l in GROW + [FOUND, LOW]:
            l.use()
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < N, ACC(i)), val(SORTED, i) >= THR), [ACC(i)]),
                 forall([i, j], z3.Implies(z3.And(0 <= j, j < i, i < N, ACC(i), ACC(j)), z3.Not(cross(j, i))), [z3.MultiPattern(ACC(i), ACC(j))]),
                 forall(i, z3.Implies(z3.And(0 <= i, i < N, z3.Not(ACC(i)), val(SORTED, i) >= THR), z3.And(
                     0 <= BLOCK(i), BLOCK(i) < i, ACC(BLOCK(i)), cross(BLOCK(i), i))), [ACC(i)]))
        return [T(REAL, THR)]

    def then(self, c, st, ret):
        self.given = c.eng.new_symlist(st, SCORE, GIVEN, N)
        st.assume(N >= 0)
        return c.eng.call(st, ret, [self.given], {}, None)

    def pairs_of(self, out, n, k):
        i = z3.Int("i")
        yield "number", n == CNT(k)
        yield "chosen", forall(i, z3.Implies(z3.And(0 <= i, i < k, ACC(i)), out[CNT(i)] == SORTED[i]), [ACC(i)])

    def inv(self, L):
        i, m = z3.Int("i"), z3.Int("m")
        NN = TUP(INT, INT)
        if L.outer is None or L.outer.it is None:
            for v in changed_lists(L, SCORE):
                yield "number[%s]" % v, lambda V, v=v: V.seq(v, SCORE)[1] == CNT(V.k)
                yield "chosen[%s]" % v, lambda V, v=v: list(self.pairs_of(*(V.seq(v, SCORE) + (V.k,))))[1][1]
            for v in changed_lists(L, NN):
                yield "number-of-numbers[%s]" % v, lambda V, v=v: V.seq(v, NN)[1] == CNT(V.k)
                yield "numbers[%s]" % v, lambda V, v=v: forall(m, z3.Implies(z3.And(0 <= m, m < CNT.f(V.k)), z3.And(
                    NN.get(0, V.seq(v, NN)[0][m]) == sn(WHERE(m, V.k)), NN.get(1, V.seq(v, NN)[0][m]) == tn(WHERE(m, V.k)))), [V.seq(v, NN)[0][m]])
                yield "their-numbers[%s]" % v, lambda V, v=v: forall(i, z3.Implies(z3.And(0 <= i, i < V.k, ACC(i)), V.seq(v, NN)[0][CNT(i)] == NN.mk(sn(i), tn(i))), [ACC(i)])
        else:
            k = L.outer.k
            yield "no-crossing-yet", lambda V: forall(i, z3.Implies(z3.And(0 <= i, i < k, ACC(i), CNT(i) < V.k), z3.Not(cross(i, k))), [ACC(i)])

    def post(self, c, st, ret):
        out, n = c.eng.as_arr(st, ret, SCORE)
        for x in self.pairs_of(out, n, N):
            yield x
        yield "sorted", z3.BoolVal(self.sorted)


# ----------------------------------------------------------------- scores
TERMS, WEIGHTS = OP("Terms"), OP("Weights")
TERM = {"SourceElem": fun("a_terms_s", SE.sort, TERMS.sort), "TargetElem": fun("a_terms_t", TE.sort, TERMS.sort)}
WEIGHT = {"SourceElem": fun("a_weights_s", SE.sort, WEIGHTS.sort), "TargetElem": fun("a_weights_t", TE.sort, WEIGHTS.sort)}
SIM = z3.Function("sim_func", TERMS.sort, TERMS.sort, WEIGHTS.sort, WEIGHTS.sort, R_)
SRC, TGT, NSRC, NTGT = z3.Const("sources", arr_sort(SE)), z3.Const("targets", arr_sort(TE)), z3.Int("len_sources"), z3.Int("len_targets")
ROW = RecFn("a_row", [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + NTGT))
ROWS = Lemma("a-rows", [Z, Z], lambda j, k: ROW(j) + NTGT <= ROW(k), hyp=lambda j, k: z3.And(0 <= j, j < k, NTGT >= 0), measure=lambda j, k: k,
             hints=lambda j, k: [(j, k - 1)], extra=lambda j, k: [ROW(j) == ROW.f0(j), ROW(k - 1) == ROW.f0(k - 1)],
             pats=lambda j, k: [z3.MultiPattern(ROW.f0(j), ROW.f(k))], lim=lambda j, k: ROW.f0(j) + NTGT <= ROW.f0(k))
CELL = fun("a_cell", Z, Z, Z)


class Focus(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name == "get" and args and isinstance(args[0], PStr) and args[0].s in ("_terms", "_weights"):
            ty, f = {"_terms": (TERMS, TERM), "_weights": (WEIGHTS, WEIGHT)}[args[0].s]
            return [(st, T(ty, f[v.el.ty.args[0] if v.el.ty.args else v.kind](v.el.t)))]
        raise Unsupported("method %s of an element" % v.name)


def make_pair(eng, st, args, kw, e):
    names = dict(zip(("source", "target"), args))
    names.update(kw)
    x, y = (eng.enc(st, names[k], t) for k, t in (("source", SE), ("target", TE)))
    return [(st, T(FP, MK(x, y)))]


def pair_axioms(c):
    x, y = z3.Const("ax", SE.sort), z3.Const("ay", TE.sort)
    c.assume(forall([x, y], z3.And(P1(MK(x, y)) == x, P2(MK(x, y)) == y), [MK(x, y)]))


class Scores(Contract):
    target = M + "TextAligner._score_sim"
    props = ("C25",)

    def models(self, c):
        at = lambda kind: lambda eng, st, v, name, e: [(st, ModelV(Focus(), el=v, name=name, kind=kind))]
        return {"attr:" + SE.key: at("SourceElem"), "attr:" + TE.key: at("TargetElem"), "attr:" + FP.key: fp_attr, "new:daeso.pair.Pair": make_pair}

    def setup(self, c):
        pair_axioms(c)
        ROWS.use()
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(forall([i, j], CELL(i, j) == ROW(i) + j, [CELL(i, j)]))
        sim = c.ufn("sim_func", [TERMS, TERMS, WEIGHTS, WEIGHTS], REAL)
        ref = c.obj(M + "TextAligner", {"sim_func": sim})
        lists = c.obj("daeso.pair.Pair", {"source": c.seq("sources", SE), "target": c.seq("targets", TE)})
        return [ref, lists]

    def want(self, i, j):
        x, y = SRC[i], TGT[j]
        return SCORE.mk(SIM(TERM["SourceElem"](x), TERM["TargetElem"](y), WEIGHT["SourceElem"](x), WEIGHT["TargetElem"](y)), MK(x, y))

    def rows(self, out, n, k, within=None):
        i, j = z3.Int("i"), z3.Int("j")
        yield "number", n == ROW(k) + (0 if within is None else within)
        some = z3.And(0 <= i, i < k, 0 <= j, j < NTGT)
        if within is not None:
            some = z3.Or(some, z3.And(i == k, 0 <= j, j < within))
        yield "scores", forall([i, j], z3.Implies(some, out[CELL(i, j)] == self.want(i, j)), [CELL(i, j)])

    def inv(self, L):
        for v in changed_lists(L, SCORE):
            for m, lab in enumerate(("number", "scores")):
                if L.outer is None or L.outer.it is None:
                    yield "%s[%s]" % (lab, v), lambda V, m=m, v=v: list(self.rows(*(V.seq(v, SCORE) + (V.k,))))[m][1]
                else:
                    yield "%s[%s]" % (lab, v), lambda V, m=m, v=v: list(self.rows(*(V.seq(v, SCORE) + (L.outer.k, V.k))))[m][1]

    def post(self, c, st, ret):
        out, n = c.eng.as_arr(st, ret, SCORE)
        for x in self.rows(out, n, NSRC):
            yield x


# ----------------------------------------------------------------- alignments of elements
ST, SI = TUP(SE, TE), TUP(SE, INT)
GH = {"n": Ty("arr", SE, INT), "at": Ty("arr", SI, TE), "has": Ty("arr", ST, BOOL)}
OLD = {k: z3.Const("old_" + k, t.sort) for k, t in GH.items()}
LAST = RecFn("a_last", [SE.sort, TE.sort, Z, Z], lambda F, x, y, k: z3.If(k <= 0, -1, z3.If(z3.And(
    src(GIVEN, k - 1) == x, tgt(GIVEN, k - 1) == y), k - 1, F(x, y, k - 1))))
fresh = lambda i: z3.And(z3.Not(OLD["has"][ST.mk(src(GIVEN, i), tgt(GIVEN, i))]), LAST(src(GIVEN, i), tgt(GIVEN, i), i) < 0)
fresh0 = lambda i: z3.And(z3.Not(OLD["has"][ST.mk(src(GIVEN, i), tgt(GIVEN, i))]), LAST.f0(src(GIVEN, i), tgt(GIVEN, i), i) < 0)
ADDED = RecFn("a_added", [SE.sort, Z, Z], lambda F, x, k: z3.If(k <= 0, 0, F(x, k - 1) + one(z3.And(src(GIVEN, k - 1) == x, fresh(k - 1)))))
MORE = Lemma("a-added-grows", [SE.sort, Z, Z], lambda x, j, k: ADDED(x, j) + one(z3.And(src(GIVEN, j) == x, fresh(j))) <= ADDED(x, k),
             hyp=lambda x, j, k: z3.And(0 <= j, j < k), measure=lambda x, j, k: k, hints=lambda x, j, k: [(x, j, k - 1)],
             extra=lambda x, j, k: [ADDED(x, j) == ADDED.f0(x, j), ADDED(x, k - 1) == ADDED.f0(x, k - 1)],
             pats=lambda x, j, k: [z3.MultiPattern(ADDED.f0(x, j), ADDED.f(x, k))],
             lim=lambda x, j, k: ADDED.f0(x, j) + one(z3.And(src(GIVEN, j) == x, fresh0(j))) <= ADDED.f0(x, k))
MORE0 = Lemma("a-added-positive", [SE.sort, Z], lambda x, k: ADDED(x, k) >= 0, hyp=lambda x, k: k >= 0, measure=lambda x, k: k,
              hints=lambda x, k: [(x, k - 1)], extra=lambda x, k: [ADDED(x, k - 1) == ADDED.f0(x, k - 1)],
              pats=lambda x, k: [ADDED.f(x, k)], lim=lambda x, k: ADDED.f0(x, k) >= 0)


class Aligned(object):
    """the list of alignments of a source element"""

    def zlen(self, eng, st, v):
        return st.place(v.con.ref).fields["@n"].t[v.el]

    def truth(self, eng, st, v):
        return [(st, self.zlen(eng, st, v) > 0)]

    def contains(self, eng, st, v, x):
        return [(st, st.place(v.con.ref).fields["@has"].t[ST.mk(v.el, eng.enc(st, x, TE))])]

    def method(self, eng, st, v, name, args, kw, e):
        if name != "append":
            raise Unsupported("alignments." + name)
        st = st.copy()
        y = eng.enc(st, args[0], TE)
        g = st.mutate(v.con.ref).fields
        n = g["@n"].t[v.el]
        for k, at, x in (("at", SI.mk(v.el, n), y), ("has", ST.mk(v.el, y), z3.BoolVal(True)), ("n", v.el, n + 1)):
            g["@" + k] = T(GH[k], z3.Store(g["@" + k].t, at, x))
        return [(st, NONE)]


class Element(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name == "get" and args and isinstance(args[0], PStr) and args[0].s == "_alignments":
            return [(st, ModelV(Aligned(), con=v.con, el=v.el))]
        raise Unsupported("method %s of an element" % v.name)


class Create(Contract):
    target = M + "TextAligner._create_alignments"
    props = ("C25",)

    def models(self, c):
        return {"attr:" + FP.key: fp_attr,
                "attr:" + SE.key: lambda eng, st, v, name, e: [(st, ModelV(Element(), con=self, el=v.t, name=name))]}

    def setup(self, c):
        MORE.use()
        MORE0.use()
        self.ref = c.obj(M + "TextAligner", {})
        q = c.st.mutate(self.ref)
        for k, t in GH.items():
            q.fields["@" + k] = T(t, OLD[k])
        x = z3.Const("ax", SE.sort)
        c.assume(forall(x, OLD["n"][x] >= 0, [OLD["n"][x]]))
        return [self.ref, c.seq("scores", SCORE)]

    def upto(self, st, k):
        g = {n: st.place(self.ref).fields["@" + n].t for n in GH}
        x, y, i = z3.Const("ax", SE.sort), z3.Const("ay", TE.sort), z3.Int("i")
        xi, yi = src(GIVEN, i), tgt(GIVEN, i)
        yield "aligned", forall([x, y], g["has"][ST.mk(x, y)] == z3.Or(OLD["has"][ST.mk(x, y)], LAST(x, y, k) >= 0), [g["has"][ST.mk(x, y)], OLD["has"][ST.mk(x, y)]])
        yield "number", forall(x, g["n"][x] == OLD["n"][x] + ADDED(x, k), [g["n"][x], OLD["n"][x]])
        yield "kept", forall([x, i], z3.Implies(i < OLD["n"][x], g["at"][SI.mk(x, i)] == OLD["at"][SI.mk(x, i)]), [g["at"][SI.mk(x, i)]])
        yield "added", forall(i, z3.Implies(z3.And(0 <= i, i < k, fresh(i)), g["at"][SI.mk(xi, OLD["n"][xi] + ADDED(xi, i))] == yi), [GIVEN[i]])

    def inv(self, L):
        if L.it is None:
            return
        for m, lab in enumerate(("aligned", "number", "kept", "added")):
            yield lab, lambda V, m=m: list(self.upto(V.st, V.k))[m][1]

    def post(self, c, st, ret):
        for x in self.upto(st, N):
            yield x


# ----------------------------------------------------------------- links removed
LINK = OP("Link")
LINKS, NLINKS = z3.Const("links", arr_sort(LINK)), z3.Int("len_links")
HASTAG, TAGOF = ({s: fun("a_%s_%s" % (k, s), LINK.sort, t) for s in ("from", "to")} for k, t in (("has_tag", B_), ("tag", S_)))
FTAG = {s: z3.Const("focus_" + s, S_) for s in ("from", "to")}
stays = lambda k: z3.And([z3.Not(z3.And(HASTAG[s](LINKS[k]), TAGOF[s](LINKS[k]) == FTAG[s])) for s in ("from", "to")])
STAY, STAYS = counting("a_links_stay", stays)


class Get(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name == "get" and len(args) == 1 and isinstance(args[0], PStr) and args[0].s in ("from_tag", "to_tag"):
            s = args[0].s[:-4]
            return [(s2, T(STR, TAGOF[s](v.el)) if b else NONE) for s2, b in eng.split(st, HASTAG[s](v.el))]
        raise Unsupported("method %s of a link" % v.name)


class Section(object):
    has_iter = True

    def iterate(self, eng, st, v):
        if st.place(v.con.ref).fields.get("@new") is not None:
            raise Unsupported("section changed")
        return [(st, It(NLINKS, lambda k: T(LINK, LINKS[k]), None, v, "links", key=lambda k: LINKS[k]))]

    def setitem(self, eng, st, v, i, x, e):
        if not isinstance(i, SliceV) or i.lo is not None or i.hi is not None or i.step is not None:
            raise Unsupported("assignment to the section")
        st = st.copy()
        if eng.conc_items(st, x) == []:
            arr, n = LINKS, z3.IntVal(0)
        else:
            arr, n = eng.as_arr(st, x, LINK)
        st.mutate(v.con.ref).fields["@new"] = Tupl([T(Ty("arr", INT, LINK), arr), T(INT, n)])
        return [(st, None)]


class Clear(Contract):
    target = M + "clear_alignments"
    props = ("C25",)

    def models(self, c):
        return {"attr:" + LINK.key: lambda eng, st, v, name, e: [(st, ModelV(Get(), el=v.t, name=name))]}

    def setup(self, c):
        for l in STAYS:
            l.use()
        c.assume(NLINKS >= 0)
        self.ref = c.obj("daeso.ptc.document.HitaextDoc", {})
        c.st.mutate(self.ref).fields["alignment"] = ModelV(Section(), con=self)
        tags = c.obj("daeso.pair.Pair", {"source": T(STR, FTAG["from"]), "target": T(STR, FTAG["to"])})
        return [self.ref, tags]

    def counts(self, eng, st):
        yield "stay", STAY

    def so_far(self, out, n, k):
        i = z3.Int("i")
        yield "number", n == STAY(k)
        yield "kept-in-order", forall(i, z3.Implies(z3.And(0 <= i, i < k, stays(i)), out[STAY(i)] == LINKS[i]), [LINKS[i]])

    def inv(self, L):
        for v in changed_lists(L, LINK):
            for m in range(2):
                yield ("number", "kept-in-order")[m] + "[%s]" % v, lambda V, m=m, v=v: list(self.so_far(*(V.seq(v, LINK) + (V.k,))))[m][1]

    def post(self, c, st, ret):
        new = st.place(self.ref).fields.get("@new")
        if new is None:
            yield "section-replaced", z3.BoolVal(False)
            return
        for x in self.so_far(new.items[0].t, new.items[1].t, NLINKS):
            yield x


# ----------------------------------------------------------------- elements, terms, weights
EL = OP("Element")
FIND, NFIND = fun("a_find", EL.sort, S_, arr_sort(EL)), fun("a_n_find", EL.sort, S_, Z)
HIDDEN = fun("a_hidden", EL.sort, B_)
cat = fun("strcat", S_, S_, S_)
SIDES = ("source", "target")
ROOTS = {s: z3.Const("scope_" + s, EL.sort) for s in SIDES}
FOCUS = {s: z3.Const("focus_tag_" + s, S_) for s in SIDES}


def visible(s):
    what = cat(lit(".//"), FOCUS[s])
    return counting("a_visible_" + s, lambda k: z3.Not(HIDDEN(FIND(ROOTS[s], what)[k]))) + (lambda k: FIND(ROOTS[s], what)[k], NFIND(ROOTS[s], what))


VIS = {s: visible(s) for s in SIDES}


class Finder(object):
    def call(self, eng, st, v, args, kw, e):
        if v.name == "get" and isinstance(args[0], PStr) and args[0].s == "_ignore":
            return [(s, T(STR, lit("true")) if b else NONE) for s, b in eng.split(st, HIDDEN(v.el))]
        if v.name in ("findall", "iterfind") and len(args) == 1:
            w = eng.enc(st, args[0], STR)
            n = NFIND(v.el, w)
            st.assume(n >= 0)
            return [(st, eng.new_symlist(st, EL, FIND(v.el, w), n))]
        raise Unsupported("method %s of an element" % v.name)


class Determine(Contract):
    target = M + "TextAligner._determine_focus_elems"
    props = ("C25",)

    def models(self, c):
        return {"attr:" + EL.key: lambda eng, st, v, name, e: [(st, ModelV(Finder(), el=v.t, name=name))]}

    def setup(self, c):
        c.eng.zlen(c.st, T(STR, lit("x")))
        for s in SIDES:
            for l in VIS[s][1]:
                l.use()
        pair = lambda d, ty: c.obj("daeso.pair.Pair", {s: T(ty, d[s]) for s in SIDES})
        return [c.obj(M + "TextAligner", {"focus_tags": pair(FOCUS, STR)}), pair(ROOTS, EL)]

    def counts(self, eng, st):
        for s in SIDES:
            yield s, VIS[s][0]

    def inv(self, L):
        for v in changed_lists(L, EL):
            for s in SIDES:
                for m in range(2):
                    yield ("number", "visible")[m] + "-%s[%s]" % (s, v), lambda V, m=m, v=v, s=s: list(self.so_far(s, *(V.seq(v, EL) + (V.k,))))[m][1]

    def so_far(self, s, out, n, k):
        i = z3.Int("i")
        F, _, item, _ = VIS[s]
        yield "number-" + s, n == F(k)
        yield "visible-" + s, forall(i, z3.Implies(z3.And(0 <= i, i < k, z3.Not(HIDDEN(item(i)))), out[F(i)] == item(i)), [item(i)])

    def post(self, c, st, ret):
        for s in SIDES:
            (st, x), = c.eng.getattr_(st, ret, s, None)
            out, n = c.eng.as_arr(st, x)
            for y in self.so_far(s, out, n, VIS[s][3]):
                yield y


LISTS = {s: z3.Const("focus_" + s, arr_sort(EL)) for s in SIDES}
LENS = {s: z3.Int("len_focus_" + s) for s in SIDES}
TEXT = {s: fun("a_text_" + s, EL.sort, S_) for s in SIDES}
TERMF = z3.Function("term_func", S_, TERMS.sort)
TERMA, WEIGHTA = Ty("arr", EL, TERMS), Ty("arr", EL, WEIGHTS)


class Settable(object):
    def call(self, eng, st, v, args, kw, e):
        f = {"_terms": "@terms", "_weights": "@weights"}.get(args[0].s if args and isinstance(args[0], PStr) else None)
        if f is None or v.name not in ("get", "set"):
            raise Unsupported("method %s of an element" % v.name)
        ty = {"@terms": TERMA, "@weights": WEIGHTA}[f]
        old = st.place(v.con.ref).fields[f].t
        if v.name == "get":
            return [(st, eng.dec(ty.args[1], old[v.el]))]
        st = st.copy()
        st.mutate(v.con.ref).fields[f] = T(ty, z3.Store(old, v.el, eng.enc(st, args[1], ty.args[1])))
        return [(st, NONE)]


class Annotate(Contract):
    props = ("C25",)

    def models(self, c):
        return {"attr:" + EL.key: lambda eng, st, v, name, e: [(st, ModelV(Settable(), con=self, el=v.t, name=name))]}

    def lists(self, c, fields):
        self.ref = c.obj(M + "TextAligner", fields)
        q = c.st.mutate(self.ref)
        q.fields["@terms"], q.fields["@weights"] = T(TERMA, z3.Const("old_terms", TERMA.sort)), T(WEIGHTA, z3.Const("old_weights", WEIGHTA.sort))
        return c.obj("daeso.pair.Pair", {s: c.seq("focus_" + s, EL) for s in SIDES})

    def now(self, st, f):
        return st.place(self.ref).fields["@" + f].t


class TreeText(object):
    def method(self, eng, st, v, name, args, kw, e):
        if name == "get_elem_text" and len(args) == 1:
            return [(st, T(STR, TEXT[v.side](eng.enc(st, args[0], EL))))]
        raise Unsupported("method %s of a text" % name)


class Extract(Annotate):
    """an element is on one side"""
    target = M + "TextAligner._extract_terms"

    def setup(self, c):
        f = c.ufn("term_func", [STR], TERMS)
        lists = self.lists(c, {"term_func": f})
        trees = c.obj("daeso.pair.Pair", {s: ModelV(TreeText(), side=s) for s in SIDES})
        x = z3.Const("ael", EL.sort)
        self.side = fun("a_on_target", EL.sort, B_)
        i = z3.Int("i")
        for s in SIDES:
            c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < LENS[s]), self.side(LISTS[s][i]) == z3.BoolVal(s == "target")), [LISTS[s][i]]))
        return [self.ref, trees, lists]

    def side_done(self, st, s, k):
        i = z3.Int("i")
        return forall(i, z3.Implies(z3.And(0 <= i, i < k), self.now(st, "terms")[LISTS[s][i]] == TERMF(TEXT[s](LISTS[s][i]))), [LISTS[s][i]])

    def inv(self, L):
        if L.it is None:
            return
        for s in SIDES:
            yield "terms-" + s, lambda V, s=s: self.side_done(V.st, s, V.k)
            yield "all-terms-" + s, lambda V, s=s: self.side_done(V.st, s, LENS[s])

    def post(self, c, st, ret):
        for s in SIDES:
            yield "terms-" + s, self.side_done(st, s, LENS[s])


class Weigh(Annotate):
    """the elements are different"""
    target = M + "TextAligner._weight_terms"

    def setup(self, c):
        lists = self.lists(c, {"weight_func": ModelV(Weighing(), con=self)})
        self.weighed = z3.Const("weighed", arr_sort(WEIGHTS))
        self.total = LENS["source"] + LENS["target"]
        i, x = z3.Int("i"), z3.Const("ael", EL.sort)
        place = fun("a_place", EL.sort, Z)
        for s in SIDES:
            c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < LENS[s]), place(LISTS[s][i]) == self.at(s, i)), [LISTS[s][i]]))
        return [self.ref, lists]

    def at(self, s, i):
        return i if s == "source" else LENS["source"] + i

    def done(self, st, k):
        i = z3.Int("i")
        return z3.And([forall(i, z3.Implies(z3.And(0 <= i, i < LENS[s], self.at(s, i) < k), self.now(st, "weights")[LISTS[s][i]] == self.weighed[self.at(s, i)]),
                              [LISTS[s][i]]) for s in SIDES])

    def inv(self, L):
        if L.it is None:
            return
        yield "weights", lambda V: self.done(V.st, V.k)
        yield "terms-kept", lambda V: self.now(V.st, "terms") == z3.Const("old_terms", TERMA.sort)

    def post(self, c, st, ret):
        yield "weights", self.done(st, self.total)


class Weighing(object):
    """the weight function is given the terms of all elements, and gives a weight for each"""

    def call(self, eng, st, v, args, kw, e):
        con = v.con
        arr, n = eng.as_arr(st, args[0])
        i = z3.Int("i")
        old = z3.Const("old_terms", TERMA.sort)
        eng.oblige("terms-to-weigh", st, z3.And([n == con.total] + [forall(i, z3.Implies(z3.And(0 <= i, i < LENS[s]), arr[con.at(s, i)] == old[LISTS[s][i]]),
                                                                          [LISTS[s][i]]) for s in SIDES]), line(e))
        return [(st, eng.new_symlist(st, WEIGHTS, con.weighed, con.total))]


# ----------------------------------------------------------------- weighted cosine
WS = {s: z3.Const("weights_" + s, arr_sort(REAL)) for s in SIDES}
WN = z3.Int("n_weights")
a_, b_ = WS["source"], WS["target"]
SUMX = sum_fn(REAL)
PRODUCTS = {"dot": lambda i: a_[i] * b_[i], "source": lambda i: a_[i] * a_[i], "target": lambda i: b_[i] * b_[i]}


def total(name):
    f = PRODUCTS[name]
    F = RecFn("a_sum_" + name, [Z, R_], lambda F, k: z3.If(k <= 0, z3.RealVal(0), F(k - 1) + f(k - 1)))
    i = z3.Int("i")
    same = Lemma("a-sum-" + name, [arr_sort(REAL), Z], lambda x, n: SUMX(x, n) == F(n),
                 hyp=lambda x, n: z3.And(n >= 0, forall(i, z3.Implies(z3.And(0 <= i, i < n), x[i] == f(i)), [x[i]])),
                 measure=lambda x, n: n, hints=lambda x, n: [(x, n - 1)], pats=lambda x, n: [z3.MultiPattern(SUMX(x, n), F.f(n))])
    low = [] if name == "dot" else [Lemma("a-squares-" + name, [Z], lambda k: F(k) >= 0, measure=lambda k: k, hints=lambda k: [(k - 1,)],
                                          hyp=lambda k: k >= 0, extra=lambda k: [F(k - 1) == F.f0(k - 1), f(k - 1) >= 0], pats=lambda k: [F.f(k)],
                                          lim=lambda k: F.f0(k) >= 0)]
    return F, [same] + low


TOTAL = {n: total(n) for n in PRODUCTS}


PROD = fun("a_product", R_, R_, R_)
NONNEG = Lemma("a-product-positive", [R_, R_], lambda p, q: p * q >= 0, hyp=lambda p, q: z3.And(p >= 0, q >= 0), pats=lambda p, q: [PROD(p, q)])


class Cosine(Contract):
    """weights are real numbers, and there are as many for either"""
    target = M + "weighted_cosine_sim"
    props = ("C25",)
    retry = True

    def setup(self, c):
        c.assume(WN >= 0)
        for F, ls in TOTAL.values():
            for l in ls:
                l.use()
        v = {s: SeqV(REAL, WS[s], WN, "list") for s in SIDES}
        v = {s: c.eng.new_symlist(c.st, REAL, WS[s], WN) for s in SIDES}
        NONNEG.use()
        p, q = TOTAL["source"][0](WN), TOTAL["target"][0](WN)
        c.assume(PROD(p, q) == p * q)                      # what PROD is
        t = [c.term(TERMS, "terms_" + s) for s in SIDES]
        return t + [v[s] for s in SIDES]

    def inv(self, L):
        for v, t in sorted(L.vars.items()):
            if t in (REAL, INT):
                for n in sorted(TOTAL):
                    yield "sum-%s[%s]" % (n, v), lambda V, n=n, v=v: V.enc(v, REAL) == TOTAL[n][0](V.k)

    def post(self, c, st, ret):
        d, p, q = (TOTAL[n][0](WN) for n in ("dot", "source", "target"))
        r = c.eng.enc(st, ret, REAL)
        st.assume(z3.And(keep(d), keep(p * q)))
        yield "zero", z3.Implies(p * q == 0, r == 0)
        yield "cosine", z3.Implies(p * q != 0, r == d / SQRT(p * q))


class Similar(Contract):
    """the similarity of the terms (C06), whatever the weights"""
    props = ("C25",)

    def setup(self, c):
        self.args = [c.term(TERMS, "terms_" + s) for s in SIDES]
        w = [c.term(WEIGHTS, "weights_" + s) for s in SIDES]
        return self.args + (w if c.case == "weights" else [])

    cases = ["weights", "no-weights"]

    def models(self, c):
        def f(eng, st, env, e):
            if len(env) != 2:
                raise Unsupported("arguments of a similarity")
            a, b = [eng.enc(st, v, TERMS) for v in env.values()]
            st.assume(SIMF(a, b) == SIMF(b, a))             # C06
            return [(st, T(REAL, SIMF(a, b)))]
        return {"fn:daeso.string.similar." + self.name: f}

    def post(self, c, st, ret):
        yield "similarity", c.eng.enc(st, ret, REAL) == SIMF(*[t.t for t in self.args])


SIMF = fun("a_similarity_of_terms", TERMS.sort, TERMS.sort, R_)
SIMS = [type("Similar" + n.title().replace("_", ""), (Similar,), {"target": M + n + "_sim", "name": n})
        for n in ("jaccard", "dice", "cosine", "tanimoto", "type_match", "overlap_min", "overlap_max")]


class EqualsSim(Contract):
    target = M + "equals_sim"
    props = ("C25",)
    cases = ["weights", "no-weights"]

    def setup(self, c):
        self.args = [c.seq("terms_" + s, STR) for s in SIDES]
        return self.args + ([c.term(WEIGHTS, "weights_" + s) for s in SIDES] if c.case == "weights" else [])

    def post(self, c, st, ret):
        (a, n), (b, m) = (c.eng.as_arr(st, x, STR) for x in self.args)
        i = z3.Int("i")
        same = z3.And(n == m, forall(i, z3.Implies(z3.And(0 <= i, i < n), a[i] == b[i]), [a[i]]))
        r = c.eng.enc(st, ret, REAL)
        yield "one-if-equal", z3.Implies(same, r == 1)
        yield "zero-otherwise", z3.Implies(z3.Not(same), r == 0)


# ----------------------------------------------------------------- a whole corpus
NODES, NNODES = {s: z3.Const("nodes_" + s, arr_sort(t)) for s, t in (("source", SE), ("target", TE))}, z3.Int("n_nodes")
ROOT = {"source": z3.Const("root_source", SE.sort), "target": z3.Const("root_target", TE.sort)}
NTAG = {"source": fun("a_node_tag_s", SE.sort, S_), "target": fun("a_node_tag_t", TE.sort, S_)}
SCOPE = {s: z3.Const("scope_tags_" + s, SET(STR).sort) for s in SIDES}
IGN = {s: z3.Const("ignore_tags_" + s, SET(STR).sort) for s in SIDES}
NAL, ALS = z3.Const("n_aligned", GH["n"].sort), z3.Const("aligned_at", GH["at"].sort)      # when the work starts
ITH = lambda k: NODES["source"][k]
OUTA, OUTB = Ty("arr", INT, SE), Ty("arr", INT, TE)
partner = lambda x, j: ALS[SI.mk(x, j)]
within = lambda x, j: SCOPE["target"][NTAG["target"](partner(x, j))]
INNER = RecFn("a_scopes_of", [SE.sort, Z, Z], lambda F, x, j: z3.If(j <= 0, 0, F(x, j - 1) + one(within(x, j - 1))))
OUTER = RecFn("a_scopes", [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + z3.If(SCOPE["source"][NTAG["source"](ITH(k - 1))], INNER(ITH(k - 1), NAL[ITH(k - 1)]), 0)))
INNERG = Lemma("a-scopes-of-grow", [SE.sort, Z, Z], lambda x, j, k: INNER(x, j) + one(within(x, j)) <= INNER(x, k), hyp=lambda x, j, k: z3.And(0 <= j, j < k),
               measure=lambda x, j, k: k, hints=lambda x, j, k: [(x, j, k - 1)], extra=lambda x, j, k: [INNER(x, j) == INNER.f0(x, j), INNER(x, k - 1) == INNER.f0(x, k - 1)],
               pats=lambda x, j, k: [z3.MultiPattern(INNER.f0(x, j), INNER.f0(x, k))], lim=lambda x, j, k: INNER.f0(x, j) + one(within(x, j)) <= INNER.f0(x, k))
INNERP = Lemma("a-scopes-of-positive", [SE.sort, Z], lambda x, k: INNER(x, k) >= 0, hyp=lambda x, k: k >= 0, measure=lambda x, k: k, hints=lambda x, k: [(x, k - 1)],
               extra=lambda x, k: [INNER(x, k - 1) == INNER.f0(x, k - 1)], pats=lambda x, k: [INNER.f(x, k)], lim=lambda x, k: INNER.f0(x, k) >= 0)
inside = lambda k: SCOPE["source"][NTAG["source"](ITH(k))]
OUTERG = Lemma("a-scopes-grow", [Z, Z], lambda j, k: OUTER(j) + z3.If(inside(j), INNER(ITH(j), NAL[ITH(j)]), 0) <= OUTER(k), hyp=lambda j, k: z3.And(0 <= j, j < k),
               measure=lambda j, k: k, hints=lambda j, k: [(j, k - 1)],
               extra=lambda j, k: [OUTER(j) == OUTER.f0(j), OUTER(k - 1) == OUTER.f0(k - 1), INNER(ITH(k - 1), NAL[ITH(k - 1)]) >= 0],
               pats=lambda j, k: [z3.MultiPattern(OUTER.f0(j), OUTER.f(k))],
               lim=lambda j, k: OUTER.f0(j) + z3.If(inside(j), INNER.f0(ITH(j), NAL[ITH(j)]), 0) <= OUTER.f0(k))


SPOT = fun("a_spot", Z, Z, Z)


class Doc(object):
    """a text tree"""

    def method(self, eng, st, v, name, args, kw, e):
        if args or kw:
            raise Unsupported("arguments of " + name)
        if name in ("getiterator", "iter") and v.side == "source":
            return [(st, ModelV(Whole()))]
        if name == "getroot":
            return [(st, T({"source": SE, "target": TE}[v.side], ROOT[v.side]))]
        raise Unsupported("method %s of a text" % name)


class Whole(object):
    has_iter = True

    def iterate(self, eng, st, v):
        return [(st, It(NNODES, lambda k: T(SE, ITH(k)), None, v, "elements", key=ITH))]


class TagSet(object):
    def contains(self, eng, st, v, x):
        return [(st, v.set[eng.enc(st, x, STR)])]

    def truth(self, eng, st, v):
        return [(st, True)]


class Node(object):
    def call(self, eng, st, v, args, kw, e):
        if args and isinstance(args[0], PStr) and args[0].s == "_alignments" and v.side == "source":
            g = st.place(v.con.ref).fields
            if v.name == "get":
                return [(st, ModelV(ListOf(), con=v.con, el=v.el))]
            if v.name == "set":
                xs = eng.conc_items(st, args[1])
                if xs is None or len(xs) != 1:
                    raise Unsupported("alignments set")
                st = st.copy()
                g = st.mutate(v.con.ref).fields
                g["@n"] = T(GH["n"], z3.Store(g["@n"].t, v.el, z3.IntVal(1)))
                g["@at"] = T(GH["at"], z3.Store(g["@at"].t, SI.mk(v.el, z3.IntVal(0)), eng.enc(st, xs[0], TE)))
                return [(st, NONE)]
        raise Unsupported("method %s of an element" % v.name)


class ListOf(object):
    has_iter = True

    def iterate(self, eng, st, v):
        g = st.place(v.con.ref).fields
        n, at = g["@n"].t, g["@at"].t
        return [(st, It(n[v.el], lambda j: T(TE, at[SI.mk(v.el, j)]), None, v, "alignments", key=lambda j: at[SI.mk(v.el, j)]))]


class Corpus(object):
    def method(self, eng, st, v, name, args, kw, e):
        con = v.con
        if name in ("inject_alignments", "extract_alignments") and len(args) == 2:
            ok = all(isinstance(a, ModelV) and isinstance(a.model, Doc) and a.side == s for a, s in zip(args, SIDES))
            eng.oblige(name.split("_")[0] + ":texts", st, z3.BoolVal(ok), line(e))
            st = st.copy()
            g = st.mutate(con.ref).fields
            if name[0] == "i":
                eng.oblige("inject:once-after-clearing", st, z3.And(z3.Not(g["@injected"].t), g["@cleared"].t == con.clear.t), line(e))
                g["@n"], g["@at"] = T(GH["n"], z3.Const("injected_n", GH["n"].sort)), T(GH["at"], z3.Const("injected_at", GH["at"].sort))
                g["@injected"] = T(BOOL, z3.BoolVal(True))
            else:
                eng.oblige("extract:after-alignment", st, z3.And(z3.Not(g["@extracted"].t), g["@calls"].t == OUTER(NNODES)), line(e))
                g["@extracted"] = T(BOOL, z3.BoolVal(True))
            return [(st, NONE)]
        raise Unsupported("method %s of a corpus" % name)


class AlignCorpus(Contract):
    """work within a scope does not change the alignments of elements that are scopes"""
    target = M + "TextAlignerBase.align_corpus"
    props = ("C25",)
    cases = ("scopes", "roots", "scopes-given-texts", "roots-given-texts")

    def models(self, c):
        def node(side):
            def f(eng, st, v, name, e):
                if name == "tag":
                    return [(st, T(STR, NTAG[side](v.t)))]
                return [(st, ModelV(Node(), con=self, el=v.t, name=name, side=side))]
            return f

        def clear(eng, st, env, e):
            f = eng.getattr_(st, env["focus_tags"], "source", None)[0][1]
            eng.oblige("clear:focus", st, z3.BoolVal(isinstance(env["corpus"], ModelV) and isinstance(env["focus_tags"], Ref) and env["focus_tags"].pid == self.focus.pid), line(e))
            st = st.copy()
            g = st.mutate(self.ref).fields
            eng.oblige("clear:first", st, z3.Not(g["@injected"].t), line(e))
            g["@cleared"] = T(BOOL, z3.BoolVal(True))
            return [(st, NONE)]

        def read(eng, st, env, e):
            s = env["side"].s if isinstance(env["side"], PStr) else None
            side = {"from": "source", "to": "target"}.get(s)
            if side is None:
                raise Unsupported("side of a text")
            i = env["ignore_tags"]
            eng.oblige("ignored-tags:" + side, st, z3.BoolVal(False) if not isinstance(i, ModelV) or not isinstance(i.model, TagSet) else i.set == IGN[side], line(e))
            return [(st, ModelV(Doc(), side=side))]

        def work(eng, st, env, e):
            scope = env["scope_elems"]
            xs = [eng.getattr_(st, scope, k, None)[0][1] for k in SIDES]
            docs = [eng.getattr_(st, env["doc_trees"], k, None)[0][1] for k in SIDES]
            eng.oblige("scope:texts", st, z3.BoolVal(all(isinstance(a, ModelV) and isinstance(a.model, Doc) and a.side == s for a, s in zip(docs, SIDES))), line(e))
            st = st.copy()
            g = st.mutate(self.ref).fields
            n = g["@calls"].t
            eng.oblige("scope:before-extraction", st, z3.Not(g["@extracted"].t), line(e))
            g["@scope_s"] = T(OUTA, z3.Store(g["@scope_s"].t, n, eng.enc(st, xs[0], SE)))
            g["@scope_t"] = T(OUTB, z3.Store(g["@scope_t"].t, n, eng.enc(st, xs[1], TE)))
            g["@calls"] = T(INT, n + 1)
            return [(st, NONE)]
        return {"attr:" + SE.key: node("source"), "attr:" + TE.key: node("target"), "fn:" + M + "clear_alignments": clear,
                "fn:" + M + "get_doc_tree": read, "fn:" + M + "TextAlignerBase._align_within_scope": work}

    def setup(self, c):
        for l in (INNERG, INNERP, OUTERG):
            l.use()
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(forall([i, j], SPOT(i, j) == OUTER(i) + INNER(ITH(i), j), [SPOT(i, j)]))
        roots, given = c.case.startswith("roots"), c.case.endswith("given-texts")
        tags = lambda d: c.obj("daeso.pair.Pair", {s: ModelV(TagSet(), set=d[s]) for s in SIDES})
        self.focus = c.obj("daeso.pair.Pair", {s: T(STR, FOCUS[s]) for s in SIDES})
        self.ref = c.obj(M + "TextAlignerBase", {"focus_tags": self.focus, "scope_tags": NONE if roots else tags(SCOPE), "ignore_tags": tags(IGN)})
        g = c.st.mutate(self.ref).fields
        for k in ("cleared", "injected", "extracted"):
            g["@" + k] = T(BOOL, z3.BoolVal(False))
        g["@calls"] = T(INT, z3.IntVal(0))
        for k, t in (("scope_s", OUTA), ("scope_t", OUTB)):
            g["@" + k] = T(t, z3.Const("old_" + k, t.sort))
        n0, at0 = ("given_n", "given_at") if given else ("injected_n", "injected_at")
        g["@n"], g["@at"] = T(GH["n"], z3.Const("given_n", GH["n"].sort)), T(GH["at"], z3.Const("given_at", GH["at"].sort))
        n, at = z3.Const(n0, GH["n"].sort), z3.Const(at0, GH["at"].sort)
        if roots:
            # the roots are taken to be aligned
            r = ROOT["source"]
            c.assume(NAL == z3.Store(n, r, z3.IntVal(1)), ALS == z3.Store(at, SI.mk(r, z3.IntVal(0)), ROOT["target"]))
            x = z3.Const("xt", S_)
            for s in SIDES:
                c.assume(forall(x, SCOPE[s][x] == (x == NTAG[s](ROOT[s])), [SCOPE[s][x]]))
        else:
            c.assume(NAL == n, ALS == at)
        x = z3.Const("ax", SE.sort)
        c.assume(NNODES >= 0, forall(x, NAL[x] >= 0, [NAL[x]]))
        self.clear = c.term(BOOL, "clear")
        self.given = given
        docs = c.obj("daeso.pair.Pair", {s: ModelV(Doc(), side=s) for s in SIDES}) if given else NONE
        return [self.ref, ModelV(Corpus(), con=self), docs, self.clear]

    def calls(self, st, k, within_=None):
        i, j = z3.Int("i"), z3.Int("j")
        g = {n: st.place(self.ref).fields["@" + n].t for n in ("calls", "scope_s", "scope_t", "n", "at", "extracted")}
        extra = 0 if within_ is None else INNER(ITH(k), within_)
        yield "number-of-scopes", g["calls"] == OUTER(k) + extra
        x = ITH(i)
        some = z3.And(0 <= i, i < k, 0 <= j, j < NAL[x])
        if within_ is not None:
            some = z3.Or(some, z3.And(i == k, 0 <= j, j < within_))
        at = SPOT(i, j)
        yield "scopes", forall([i, j], z3.Implies(z3.And(some, inside(i), within(x, j)), z3.And(g["scope_s"][at] == x, g["scope_t"][at] == partner(x, j))),
                               [SPOT(i, j)])
        yield "alignments-kept", z3.And(g["n"] == NAL, g["at"] == ALS)
        yield "not-extracted-yet", z3.Not(g["extracted"])

    def inv(self, L):
        if L.it is None:
            return
        labs = ("number-of-scopes", "scopes", "alignments-kept", "not-extracted-yet")
        if L.outer is not None and L.outer.it is not None:
            k = L.outer.k
            for m, lab in enumerate(labs):
                yield lab, lambda V, m=m: list(self.calls(V.st, k, V.k))[m][1]
            yield "source-in-scope", lambda V: inside(k)
        else:
            for m, lab in enumerate(labs):
                yield lab, lambda V, m=m: list(self.calls(V.st, V.k))[m][1]

    def post(self, c, st, ret):
        g = st.place(self.ref).fields
        for lab, f in self.calls(st, NNODES):
            if lab != "not-extracted-yet":
                yield lab, f
        yield "extracted", g["@extracted"].t
        yield "cleared-if-asked", g["@cleared"].t == self.clear.t
        yield "alignments-read", g["@injected"].t == z3.BoolVal(not self.given)


class Within(Contract):
    """the steps within a scope, in order, each on what the one before made"""
    target = M + "TextAligner._align_within_scope"
    props = ("C25",)
    STEPS = ("determine_focus_elems", "extract_terms", "weight_terms", "score_sim", "filter_scores", "create_alignments")

    def setup(self, c):
        self.ref = c.obj(M + "TextAligner", {})
        c.st.mutate(self.ref).fields["@step"] = T(INT, z3.IntVal(0))
        self.docs, self.scope = (c.obj("daeso.pair.Pair", {s: c.term(OP(k), s + "_" + k) for s in SIDES}) for k in ("Document", "Scope"))
        self.n = {s: z3.Int("n_focus_" + s) for s in SIDES}
        c.assume(*[n >= 0 for n in self.n.values()])
        self.lists = c.obj("daeso.pair.Pair", {s: SeqV(t, z3.Const("focus_of_" + s, arr_sort(t)), self.n[s], "list") for s, t in (("source", SE), ("target", TE))})
        self.scored, self.left = c.term(OP("Scores"), "scores_made"), c.term(OP("Scores"), "scores_left")
        return [self.ref, self.docs, self.scope]

    def models(self, c):
        same = lambda a, b: isinstance(a, Ref) and isinstance(b, Ref) and a.pid == b.pid

        def step(k, given, out):
            def f(eng, st, env, e):
                st = st.copy()
                g = st.mutate(self.ref).fields
                eng.oblige("step-in-order:" + self.STEPS[k], st, g["@step"].t == k, line(e))
                for n, v in given.items():
                    x, v = env[n], getattr(self, v)
                    eng.oblige("step-given:%s.%s" % (self.STEPS[k], n), st,
                               z3.BoolVal(same(x, v)) if isinstance(v, Ref) else x.t == v.t if isinstance(x, T) else z3.BoolVal(False), line(e))
                g["@step"] = T(INT, z3.IntVal(k + 1))
                return [(st, getattr(self, out) if out else NONE)]
            return f
        L = {"focus_elem_lists": "lists"}
        given = [{"scope_elems": "scope"}, dict(L, doc_trees="docs"), L, L, {"scores": "scored"}, {"align_scores": "left"}]
        outs = ["lists", None, None, "scored", "left", None]
        return {"fn:" + M + "TextAligner._" + n: step(k, given[k], outs[k]) for k, n in enumerate(self.STEPS)}

    def post(self, c, st, ret):
        k = st.place(self.ref).fields["@step"].t
        some = z3.And(*[n > 0 for n in self.n.values()])
        yield "all-steps", z3.Implies(some, k == len(self.STEPS))
        yield "nothing-made-of-nothing", z3.Implies(z3.Not(some), k < len(self.STEPS))


LEMMAS = [l for s in SIDES for l in VIS[s][1]] + GROW + [FOUND, LOW, ROWS, MORE, MORE0] + STAYS + counting("a_over", lambda k: val(GIVEN, k) > THR)[1]
LEMMAS += [NONNEG] + LEFT[1] + [l for n in sorted(TOTAL) for l in TOTAL[n][1]] + [INNERG, INNERP, OUTERG]
CONTRACTS = SIMS + [Within, EqualsSim, PreTerms, WordTerms, CharTerms, AlignCorpus, Cosine, Determine, Extract, Weigh, Threshold, NoFilter, NoCross, Scores, Create, Clear]
