# -*- coding: utf-8 -*-
from pgcgen import *
PGC = ParallelGraphCorpus

# pairs by number; 0 and 5, 1 and 6 are equal but not the same
POOL = [("b1", "b2", "g1", "g1", [("n", "m", "equals")]), ("b1", "b2", "g2", "g2", []), ("b1", "b3", "g1", "g3", [("n", "n", "equals")]),
        ("b2", "b1", "g1", "g1", [("n", "m", "equals")]), ("b1", "b2", "g1", "g1", [("n", "m", "restates")])]


def pool():
    out = []
    for a, b, g, h, al in POOL + POOL[:2]:
        out.append(pair([GraphBank("/nowhere/" + x, "graphml") for x in (a, b)], (g, h), al))
    return out


KEY = [0, 1, 2, 3, 4, 0, 1]


def agree(c, model, ps, rels, meta, what):
    holds(type(c) is PGC, "still a corpus " + what, type(c))
    got = [[k for k, p in enumerate(ps) if p is x] for x in list(c)]
    eq(got, [[k] for k in model], "graph pairs " + what)
    eq(len(c), len(model), "length " + what)
    eq(c.get_relations(), sorted(rels), "relations " + what)
    holds(c.get_meta_data() is meta, "meta data " + what, c.get_meta_data(), meta)


def first(model, k):
    return [KEY[x] for x in model].index(KEY[k])


def run(start, ops, rels, meta):
    ps = pool()
    m = elem(meta, "corpus_meta_data")
    given = list(rels)
    c = PGC([ps[k] for k in start], given, m)
    eq(given, list(rels), "the relations given are left alone")
    model = list(start)

    def sub(ks, rs=rels):
        return PGC([ps[k] for k in ks], list(rs), m)
    agree(c, model, ps, rels, m, "at first")
    for n, op in enumerate(ops):
        what = "after %r" % (ops[:n + 1],)
        o, a = op[0], op[1:]
        new, want = None, None
        if o == "append":
            c.append(ps[a[0]])
            model.append(a[0])
        elif o == "insert":
            c.insert(a[0], ps[a[1]])
            model.insert(a[0], a[1])
        elif o == "pop":
            try:
                k = model.pop(*a)
            except IndexError:
                raises(IndexError, "pop outside of the corpus " + what, c.pop, *a)
            else:
                holds(c.pop(*a) is ps[k], "pop returns the graph pair " + what)
        elif o == "del":
            if -len(model) <= a[0] < len(model):
                del c[a[0]]
                del model[a[0]]
            else:
                raises(IndexError, "deletion outside of the corpus " + what, c.__delitem__, a[0])
        elif o == "delslice":
            del c[a[0]:a[1]]
            del model[a[0]:a[1]]
        elif o == "delstep":
            del c[a[0]:a[1]:a[2]]
            del model[a[0]:a[1]:a[2]]
        elif o == "set":
            if -len(model) <= a[0] < len(model):
                c[a[0]] = ps[a[1]]
                model[a[0]] = a[1]
            else:
                raises(IndexError, "assignment outside of the corpus " + what, c.__setitem__, a[0], ps[0])
        elif o == "setslice":
            c[a[0]:a[1]] = sub(a[2])
            model[a[0]:a[1]] = a[2]
        elif o == "get":
            if -len(model) <= a[0] < len(model):
                holds(c[a[0]] is ps[model[a[0]]], "element " + what)
            else:
                raises(IndexError, "element outside of the corpus " + what, c.__getitem__, a[0])
        elif o == "slice":
            new, want = c[a[0]:a[1]], model[a[0]:a[1]]
        elif o == "step":
            new, want = c[a[0]:a[1]:a[2]], model[a[0]:a[1]:a[2]]
        elif o == "add":
            new, want = c + sub(a[0]), model + a[0]
        elif o == "iadd":
            d = c
            c += sub(a[0])
            model += a[0]
            holds(c is d, "in-place addition keeps the object " + what)
        elif o == "mul":
            new, want = c * a[0], model * a[0]
        elif o == "rmul":
            new, want = a[0] * c, model * a[0]
        elif o == "imul":
            d = c
            c *= a[0]
            model *= a[0]
            holds(c is d, "in-place multiplication keeps the object " + what)
        elif o == "extend":
            c.extend(ps[k] for k in a[0])
            model.extend(a[0])
        elif o == "clear":
            c.clear()
            model = []
        elif o == "reverse":
            c.reverse()
            model.reverse()
        elif o == "sort":
            c.sort(key=lambda p: [KEY[k] for k in range(7) if ps[k] is p][0], reverse=a[0])
            model.sort(key=lambda k: KEY[k], reverse=a[0])
        elif o == "remove":
            if KEY[a[0]] in [KEY[k] for k in model]:
                del model[first(model, a[0])]
                c.remove(ps[a[0]])
            else:
                raises(ValueError, "removal of what is not there " + what, c.remove, ps[a[0]])
        elif o == "find":
            for k in range(7):
                ks = [KEY[x] for x in model]
                eq(ps[k] in c, KEY[k] in ks, "membership of %d %s" % (k, what))
                eq(c.count(ps[k]), ks.count(KEY[k]), "count of %d %s" % (k, what))
                if KEY[k] in ks:
                    eq(c.index(ps[k]), ks.index(KEY[k]), "index of %d %s" % (k, what))
                else:
                    raises(ValueError, "index of what is not there " + what, c.index, ps[k])
            holds([id(x) for x in reversed(c)] == [id(ps[k]) for k in model[::-1]], "reverse iteration " + what)
        elif o == "equal":
            d = sub(a[0])
            same = [KEY[x] for x in model] == [KEY[x] for x in a[0]]
            eq(bool(c == d), same, "equality " + what)
            eq(bool(c != d), not same, "inequality " + what)
            eq(bool(d == c), same, "symmetric equality " + what)
        elif o == "copy":
            d = copy.deepcopy(c)
            holds(d == c and not d != c, "a copy is equal " + what)
            for x, y in zip(c, d):
                holds(x is not y, "a copy has its own graph pairs " + what)
                holds(all(u is v for u, v in zip(tuple(x.get_banks()) + tuple(x.get_graphs()),
                                                 tuple(y.get_banks()) + tuple(y.get_graphs()))),
                      "a copy shares banks and graphs " + what)
            for y in d:
                y.add_align(Pair("zz", "zz"), "equals")
            if m is not None:
                d.get_meta_data().set("zz", "zz")
                holds(m.get("zz") is None, "a copy has its own meta data " + what)
            d.set_relations(["zz"])
            d.clear()
            for x in c:
                eq(x.get_align(Pair("zz", "zz")), None, "a copy is independent " + what)
        elif o == "bad":
            other = sub(a[0], list(rels) + ["other"])
            raises(ValueError, "adding a corpus with other relations", lambda: c + other)
            raises(ValueError, "adding a corpus with other relations", c.__iadd__, other)
            raises(ValueError, "assigning a corpus with other relations", c.__setslice__, 0, 1, other)
            for x in ([], [ps[0]], None, "x"):
                raises(TypeError, "adding what is no corpus", lambda: c + x)
                raises(TypeError, "assigning what is no corpus", c.__setslice__, 0, 1, x)
            for x in (None, "x", c, new):
                raises(TypeError, "appending what is no graph pair", c.append, x)
                raises(TypeError, "inserting what is no graph pair", c.insert, 0, x)
                raises(TypeError, "assigning what is no graph pair", c.__setitem__, 0, x)
        if new is not None:
            agree(new, want, ps, rels, m, "of the new corpus " + what)
            before = list(model)
            del new[:]
            agree(c, before, ps, rels, m, "of the corpus when the new one is emptied " + what)
        agree(c, model, ps, rels, m, what)


def check(start, ops, rels, meta):
    run(start, [tuple(o) for o in ops], rels, meta)


RELSETS = [["equals", "restates"], ["restates", "equals", "zz", "aa"], []]


def gen_small(R):
    idx = range(-4, 5)
    for start in ([], [0], [0, 1, 5]):
        for o in [("append", 2), ("clear",), ("reverse",), ("sort", True), ("sort", False), ("find",), ("copy",), ("pop",), ("bad", [1])]:
            for meta in (None, u"", u"text", u"<a/>"):
                yield start, [o], RELSETS[1], meta
        for i in idx:
            for o in [("insert", i, 3), ("pop", i), ("del", i), ("set", i, 2), ("get", i), ("mul", i), ("rmul", i), ("imul", i)]:
                yield start, [o], RELSETS[0], None
            for j in idx:
                for o in [("delslice", i, j), ("slice", i, j), ("setslice", i, j, [3, 4])]:
                    yield start, [o], RELSETS[0], None
                for k in (-2, -1, 1, 2):
                    for o in [("step", i, j, k), ("delstep", i, j, k)]:
                        yield start, [o], RELSETS[2], u"<a/>"
        for k in range(7):
            yield start, [("remove", k), ("find",)], RELSETS[0], None
        for other in ([], [0], [5], [0, 1, 5], [5, 6, 0], [0, 1, 4]):
            for o in ("add", "iadd", "extend", "equal"):
                yield start, [(o, other)], RELSETS[0], u"t"


def gen_random(R):
    r = R.rng
    while True:
        ops = []
        some = lambda: [r.randrange(7) for _ in range(r.randint(0, 3))]
        i = lambda: r.choice([0, 0, 1, 2, 3, -1, -2, 7, None])
        z = lambda: r.choice([0, 0, 1, 2, -1, -2, 7])
        for _ in range(r.randint(1, 8)):
            ops.append(r.choice([
                ("append", r.randrange(7)), ("insert", z(), r.randrange(7)), ("pop",), ("pop", z()), ("del", z()),
                ("delslice", i(), i()), ("delstep", i(), i(), r.choice([-2, -1, 1, 2])), ("set", z(), r.randrange(7)),
                ("setslice", i(), i(), some()), ("get", z()), ("slice", i(), i()), ("step", i(), i(), r.choice([-2, -1, 1, 2])),
                ("add", some()), ("iadd", some()), ("mul", r.randint(-1, 2)), ("rmul", r.randint(-1, 2)), ("imul", r.randint(0, 2)),
                ("extend", some()), ("reverse",), ("sort", r.random() < .5), ("remove", r.randrange(7)), ("find",),
                ("equal", some()), ("copy",), ("bad", some())]))
        yield some(), ops, r.choice(RELSETS), r.choice([None, u"", u"t", u"<a x='1'>t</a>"])


def check_equal(a, b):
    """equality of corpora by relations, meta data and graph pairs"""
    def make(x):
        ps = pool()
        return PGC([ps[k] for k in x[0]], list(x[1]), elem(x[2], "corpus_meta_data"))
    c, d = make(a), make(b)
    want = ([KEY[k] for k in a[0]], sorted(a[1]), tree(elem(a[2], "corpus_meta_data"))) == (
        [KEY[k] for k in b[0]], sorted(b[1]), tree(elem(b[2], "corpus_meta_data")))
    eq(bool(c == d), want, "equality")
    eq(bool(c != d), not want, "inequality")
    eq(bool(d == c), want, "symmetric equality")
    eq(bool(c == c), True, "equality with itself")
    for x in ([], None, 1):
        eq(bool(c == x), False, "equality with %r" % (x,))
        eq(bool(c != x), True, "inequality with %r" % (x,))


def gen_equal(R):
    xs = [(k, r, m) for k in ([], [0], [5], [0, 1]) for r in (["equals"], ["restates", "equals"], ["equals", "restates"])
          for m in (None, u"", u" ", u"t", u" t ", u"<a/>", u"<a> </a>", u"<a>t</a>", u"<a/><b/>", u"<b/><a/>", u"<a x='1'/>")]
    for a in xs[::5]:
        for b in xs:
            yield a, b
    while True:
        yield R.rng.choice(xs), R.rng.choice(xs)


GROUPS = [Group("operations", gen_small, check, "every operation with indices -4..4 on corpora of 0, 1 and 3 graph pairs"),
          Group("equality", gen_equal, check_equal, "pairs of corpora of up to 2 graph pairs, 3 sets of relations, 11 meta data", share=.5),
          Group("histories", gen_random, check, "random histories of up to 8 operations on corpora over 7 graph pairs")]
