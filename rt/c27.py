# -*- coding: utf-8 -*-
from c24 import *
import pgcgen
from pgcgen import shown
from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL
from daeso.pgc.creation import pgc_from_ptc, _token_diff
from daeso.relations import RELATIONS


def differing(a, b):
    """tokens of either list that are not in the other"""
    n = 0
    for t in a:
        if not any(t == u for u in b):
            n += 1
    for t in b:
        if not any(t == u for u in a):
            n += 1
    return n


def flat(g):
    return (g.id, sorted((n, sorted((k, uni(v)) for k, v in d.items())) for n, d in g.nodes(data=True)),
            sorted((a, b, sorted((k, uni(v)) for k, v in d.items())) for a, b, d in g.edges(data=True)))


def put_links(s, name, fns, links):
    """links: [(from tag, from id, to tag, to id)]; the texts are in the directory of the corpus"""
    out = [u'<?xml version="1.0" encoding="utf-8"?>\n<hitaext><from><filename>%s</filename></from><to><filename>%s</filename></to>' % tuple(
        escape(f) for f in fns), u'<alignment method="id">']
    for l in links:
        out.append(u"<link from_tag=%s from_id=%s to_tag=%s to_id=%s/>" % tuple(map(quoteattr, l)))
    return s.put(name, u"\n".join(out + [u"</alignment></hitaext>"]))


def check(texts, links, focus, rels, least, most, missing, elsewhere):
    """texts: per side [(id, [words])]; the k-th has a graph, unless missing"""
    with Scratch() as s:
        fns, banks, graphs, words = [], [], [], []
        for side, sents, miss, tag in zip("st", texts, missing, focus):
            t = ("doc", None, u"", u"", [("p", None, u"", u"", [(tag, i, u" ".join(ws), u"\n", []) for i, ws in sents])])
            fn = put_text(s, side + ".xml", t)
            fns.append("/no/such/place/%s.xml" % side if elsewhere else fn)
            gs = [{"id": i, "tokens": u" ".join(ws), "root": "n0", "nodes": [("n0", side, u" ".join(ws))], "edges": []} for i, ws in sents if i not in miss]
            graphs.append(dict((g["id"], g) for g in gs))
            banks.append(s.put(side + "bank.xml", bank_xml(gs)))
            words.append(dict((i, [w.lower() for w in u" ".join(ws).split()]) for i, ws in sents))
        doc = put_links(s, "doc.ptc", fns, links)
        want, lost = [], False
        for ft, f, tt, t in links:
            if (ft, tt) != focus:
                continue
            if f not in words[0] or t not in words[1]:
                lost = True
                break
            a, b = words[0][f], words[1][t]
            if len(a) > most or len(b) > most or least and differing(a, b) < least:
                continue
            if f not in graphs[0] or t not in graphs[1]:
                lost = True
                break
            want.append((f, t))
        kw = {"focus_tags": Pair(*focus), "graph_formats": Pair("graphml", "graphml"), "min_token_diff": least, "max_token_len": most}
        given = rels and list(rels)
        if rels is not None:
            kw["relations"] = given
        if lost:
            raises(KeyError, "no such element or graph", pgc_from_ptc, doc, banks[0], banks[1], **kw)
            return
        c = pgc_from_ptc(doc, banks[0], banks[1], **kw)
        holds(type(c) is ParallelGraphCorpus, "a parallel graph corpus", type(c))
        eq(c.get_relations(), sorted(RELATIONS if rels is None else rels), "relations of the corpus")
        eq(given, rels and list(rels), "list of relations given")
        eq(c.get_meta_data(), None, "meta data of the corpus")
        real = [GraphBank(b, "graphml").get_file_path() for b in banks]
        ueq([shown(gp) for gp in c], [(real, ["graphml"] * 2, [f, t], [], ("graph_meta_data", "", "", [], [])) for f, t in want], "graph pairs")
        for gp, ids in zip(c, want):
            for g, i, gs in zip(gp.get_graphs(), ids, graphs):
                ueq((g.nodes(), g.node["n0"]["tokens"], g.node["n0"]["label"]), (["n0"], uni(gs[i]["tokens"]).split(" "), gs[i]["nodes"][0][1]), "graph %r" % i)
        holds(len(set(map(id, c))) == len(c) and len(set(id(gp._meta_data) for gp in c)) == len(c), "each link has a graph pair of its own", want)
        # what is written is read again
        out = s.path("out.pgc")
        c.write(out)
        d = ParallelGraphCorpus(inf=out, graph_loading=LOAD_ALL)
        ueq([shown(gp) for gp in d], [shown(gp) for gp in c], "corpus written and read again")


def gen(R):
    r = R.rng
    two = [(u"a", [u"The", u"cat"]), (u"b", [u"the", u"dog", u"."])]
    for links in ([], [(0, 0)], [(1, 0), (0, 1)], [(0, 0), (0, 1), (1, 1)], [(0, 0), (0, 0)]):
        ls = [("s", two[i][0], "s", two[j][0]) for i, j in links]
        for least, most in ((0, 99999), (1, 3), (0, 2), (3, 9), (2, 2), (-1, 3), (4, 0)):
            yield [two, two], ls, ("s", "s"), None, least, most, [(), ()], False
        yield [two, two], ls, ("s", "w"), ["r2", "r1"], 0, 9, [(), ()], True
        yield [two, two], ls, ("s", "s"), [], 0, 9, [(), ("b",)], False
        yield [two, two], ls + [("s", "zz", "s", "a")], ("s", "s"), [], 0, 9, [(), ()], False
        yield [two, two], ls + [("p", "zz", "s", "a"), ("s", "a", "p", "zz")], ("s", "s"), [], 0, 9, [(), ()], False
    while True:
        sents = lambda: [(u"%s%d" % (r.choice(["s", u"\xe9", "a b"]), k), [r.choice([u"the", u"The", u"a", u"cat", u"\xc9\xe9n", u"\xe9\xe9n", u".", u"x y"])
                                                                          for _ in range(r.randint(0, 5))]) for k in range(r.randint(1, 5))]
        texts = [sents(), sents()]
        focus = r.choice([("s", "s"), ("s", "w")])
        tag = lambda t: t if r.random() < .8 else r.choice(["p", "s", "w"])
        links = [(tag(focus[0]), r.choice(texts[0])[0], tag(focus[1]), r.choice(texts[1])[0]) for _ in range(r.randint(0, 6))]
        miss = [[i for i, _ in t if r.random() < .1] for t in texts]
        yield texts, links, focus, r.choice([None, [], ["b", "a"]]), r.choice([0, 0, 1, 2, 4]), r.choice([99999, 5, 3, 2]), miss, r.random() < .5


def check_diff(a, b):
    eq(_token_diff(a, b), differing(a, b), "tokens that differ")
    eq(_token_diff(tuple(b), list(a)), differing(a, b), "tokens that differ, the other way round")


def gen_diff(R):
    r = R.rng
    for n in range(4):
        for m in range(3):
            for a in itertools.product("xy", repeat=n):
                for b in itertools.product("xz", repeat=m):
                    yield list(a), list(b)
    while True:
        yield [[r.choice([u"a", "b", u"\xe9", "", "c"]) for _ in range(r.randint(0, 6))] for _ in range(2)]


GROUPS = [
    Group("creation", gen, check, "all sets of links of 5 between two texts of 2 sentences, 7 limits; random texts of up to 5 sentences of up to 5 words", 3),
    Group("token difference", gen_diff, check_diff, "all lists of up to 3 and 2 words over 2 words each; random ones of up to 6", 1),
]
