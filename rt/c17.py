# -*- coding: utf-8 -*-
from pgcgen import *
from daeso.gb.graphbank import GraphBank
import xml.etree.cElementTree as ET, copy, StringIO

MODES = [LOAD_NONE, LOAD_SPARSE, LOAD_ALL]
NAMES = {LOAD_NONE: "none", LOAD_SPARSE: "sparse", LOAD_ALL: "all"}


def content(c, stubs=False):
    """everything observable of a corpus"""
    return uni((list(c._relations), tree(c._meta_data), [shown(gp) for gp in c]))


def flat(g):
    """a graph as plain data"""
    return (g.id, g.root, g.get_graph_token_string(), sorted((n, sorted(a.items())) for n, a in g.nodes(data=True)),
            sorted((a, b, sorted(d.items())) for a, b, d in g.edges(data=True)))


def build(s, banks, pairs, rels, meta):
    """the corpus in memory; banks: [(path, graphs)]; pair: as in gbgen with numbers of banks"""
    objs = [GraphBank(s.put(p, bank_xml(g)), "graphml") for p, g in banks]
    for b in objs:
        b.load()
    c = ParallelGraphCorpus(relations=rels, meta_data=elem(meta, "corpus_meta_data"))
    for p in pairs:
        gp = GraphPair(Pair(objs[p["from"][0]], objs[p["to"][0]]),
                       Pair(objs[p["from"][0]].get_graph(p["from"][1]), objs[p["to"][0]].get_graph(p["to"][1])))
        for a, b, r in p["align"]:
            gp.add_align(Pair(a, b), r)
        if p.get("meta") is not None:
            gp.set_meta_data(elem(p["meta"], "graph_meta_data"))
        c.append(gp)
    return c


def expected(s, banks, pairs, rels, meta):
    path = lambda k: os.path.realpath(s.path(banks[k][0]))
    out = []
    for p in pairs:
        two = (p["from"], p["to"])
        out.append(([path(k) for k, _ in two], ["graphml"] * 2, [g for _, g in two], sorted(p["align"]),
                    tree(elem(p.get("meta") or u"", "graph_meta_data"))))
    return uni((sorted(rels), tree(elem(meta, "corpus_meta_data")), out))


def verify_xml(text, pairs, rels, meta, n_banks, pprint):
    """the document, read independently"""
    holds(text.startswith('<?xml version="1.0" encoding="utf-8"?>\n<parallel_graph_corpus>'), "XML header", text[:80])
    root = ET.fromstring(text)
    tags = [e.tag for e in root]
    eq(tags, ([] if meta is None else ["corpus_meta_data"]) + ["graphbanks", "node_relations", "aligned_graphs"], "elements")
    ueq([e.text for e in root.find("node_relations")], sorted(rels), "relations written")
    eq(len(root.find("graphbanks")), n_banks, "banks written")
    els = list(root.find("aligned_graphs"))
    eq([e.tag for e in els], ["graph_pair"] * len(pairs), "graph pairs written")
    for k, (e, p) in enumerate(zip(els, pairs)):
        ueq((e.get("n"), e.get("from_graph_id"), e.get("to_graph_id")), (str(k + 1), p["from"][1], p["to"][1]), "attributes of graph pair")
        ueq(sorted((x.get("from_node_id"), x.get("to_node_id"), x.get("relation")) for x in e.findall("node_pair")),
            sorted(p["align"]), "node pairs written")
    if pprint:
        for e in root.getiterator("node_pair"):
            holds("\n" in (e.tail or ""), "one element per line", e.tail)


def check(banks, pairs, rels, meta, out, how, absolute, pprint):
    with Scratch() as s:
        c = build(s, banks, pairs, rels, meta)
        want = expected(s, banks, pairs, rels, meta)
        eq(content(c), want, "the corpus made")
        fn = s.path(out)
        kw = {"abs_path": absolute, "pprint": pprint}
        if how == "path":
            c.write(fn, **kw)
        elif how == "file":
            f = open(fn, "wb")
            c.write(f, **kw)
            f.close()
        else:
            # a file-like object has no directory: paths are relative to the current one
            b = StringIO.StringIO()
            c.write(b, **kw)
            if not absolute:
                text = b.getvalue()
                for e in ET.fromstring(text).findall("graphbanks/file"):
                    holds(os.path.exists(os.path.join(os.getcwd(), e.text)), "path relative to the current directory", e.text)
                b = StringIO.StringIO()
                c.write(b, abs_path=True, pprint=pprint)
            f = open(fn, "wb")
            f.write(b.getvalue())
            f.close()
        eq(content(c), want, "the corpus after writing")
        text = slurp(fn)
        used = set(p[x][0] for p in pairs for x in ("from", "to"))
        verify_xml(text, pairs, rels, meta, len(used), pprint)
        distinct = all(p["from"] != p["to"] for p in pairs)
        for mode in MODES:
            if not distinct and mode == LOAD_SPARSE:
                continue    # a graph aligned with itself
            d = ParallelGraphCorpus(inf=fn, graph_loading=mode)
            eq(content(d), want, "what is read with graphs %s" % NAMES[mode])
            holds(c == d and d == c and not c != d, "the corpus read equals the one written", NAMES[mode])
            if mode == LOAD_ALL:
                for x, y in zip(c, d):
                    for g, h in zip(x.get_graphs(), y.get_graphs()):
                        ueq(flat(g), flat(h), "graphs of the banks")
            again = s.path("again", os.path.basename(out))
            d.write(fn, abs_path=absolute, pprint=pprint)
            eq(sorted(ET.tostring(e) for e in ET.fromstring(slurp(fn)).getiterator("node_pair")),
               sorted(ET.tostring(e) for e in ET.fromstring(text).getiterator("node_pair")), "node pairs when written again")
            eq(content(ParallelGraphCorpus(inf=fn, graph_loading=LOAD_NONE)), want, "what is written and read again")
        for inf in ("file", "buffer"):
            f = open(fn, "rb")
            b = f if inf == "file" else StringIO.StringIO(f.read())
            if inf == "buffer" and not absolute:
                f.close()
                continue
            d = ParallelGraphCorpus()
            d.read(b, graph_loading=LOAD_NONE)
            f.close()
            eq(content(d), want, "what is read from a " + inf)


G1 = {"id": "g1", "tokens": u"a b", "root": "n0", "nodes": [("n0", "X", "a b"), ("n1", "a", "a"), ("n2", "b", "b")],
      "edges": [("n0", "n1", "hd"), ("n0", "n2", None)]}
G2 = dict(G1, id=u"g\xe9 <2>&\"'", tokens=u"\xe9 c d", root=None)
B2 = [("b1.xml", [G1, G2]), ("sub/b 2.xml", [G1])]


def P(a, g, b, h, al=(), meta=None):
    return {"from": (a, g), "to": (b, h), "align": list(al), "meta": meta}


I2 = G2["id"]
AL = [("n0", "n0", "equals"), ("n1", "n2", "restates"), ("n2", "n1", u"\xe9<&>")]
CORPORA = [([], ["equals"], None), ([P(0, "g1", 1, "g1", AL)], [], u""), ([P(0, "g1", 1, "g1", AL), P(0, I2, 1, "g1", [], u"t")], ["b", "a", u"\xe9&"], u"<x>\xe9 &amp; y</x>tail"),
           ([P(1, "g1", 0, I2, AL, u"<note by='me &lt;'>\xe9</note>  <b/>"), P(0, "g1", 1, "g1", [("n1", "n1", "equals")])], RELS,
            u"<graph_pair from_bank_id='x'/><relation>no</relation><file id='1'>no</file>"),
           ([P(0, "g1", 0, I2, [], u"<node_pair from_node_id='x' to_node_id='y' relation='z'/>"), P(0, I2, 0, "g1", AL)], RELS, u"  "),
           ([P(0, "g1", 1, "g1", AL, u"<graph_meta_data><a/>x</graph_meta_data>")] * 2, RELS, u"<corpus_meta_data>y</corpus_meta_data>")]
IDS = ["g%d", "g%d", " g%d", "g%d ", "G%d", u"g\xe9%d", "%d", "g &<%d>'"]
ODD_RELS = RELS + ["Equals", " equals", "equals ", u"\xe9", "a b"]
LISTED = [x for x in ODD_RELS if x == x.strip()]     # blanks around listed relations are layout


def odd(r, g):
    """with unusual node names"""
    if r.random() < .5:
        return g
    f = r.choice([u" %s", u"%s ", u"\xe9%s", u"<%s&", u"N%s"])
    return {"id": g["id"], "tokens": g["tokens"], "root": f % g["root"], "nodes": [(f % a, l, t) for a, l, t in g["nodes"]],
            "edges": [(f % a, f % b, l) for a, b, l in g["edges"]]}


OUTS = ["o.pgc", "sub/o.pgc", "x/y z/o.pgc"]


def gen(R):
    for p, rels, meta in CORPORA:
        yield B2, p, rels, meta, OUTS[0], "path", False, False
        yield B2, p, rels, meta, OUTS[1], "file", False, True
        yield B2, p, rels, meta, OUTS[2], "buffer", False, False
        yield B2, p, rels, meta, OUTS[2], "path", True, True
    for k, i in enumerate(IDS):
        f = lambda g, i: {"id": i, "tokens": g["tokens"], "root": g["root"], "nodes": g["nodes"], "edges": g["edges"]}
        i = i % 1
        a, b = f(G2, i), f(G2, "h")
        yield ([("b.xml", [a]), ("c.xml", [b])], [P(0, i, 1, "h", AL[:1]), P(1, "h", 0, i, [AL[2]])], [LISTED[5 + k % 3]] if k < 5 else LISTED, None,
               OUTS[0], ["path", "file", "buffer"][k % 3], False, k % 2 == 1)
    r = R.rng
    while True:
        banks = []
        for k in range(r.randint(1, 3)):
            banks.append((r.choice(["", "s/", "t/u/"]) + "b%d.xml" % k, [odd(r, rand_graph(r, r.choice(IDS) % j, 3)) for j in range(r.randint(1, 3))]))
        pairs = []
        for _ in range(r.randint(0, 5)):
            a, b = r.randrange(len(banks)), r.randrange(len(banks))
            g, h = r.choice(banks[a][1]), r.choice(banks[b][1])
            if a != b or g is not h:
                pairs.append(P(a, g["id"], b, h["id"], rand_align(r, g, h, ODD_RELS), r.choice([None, None, u"<a/>", u"x", u"<k v='1'>t</k>u"])))
        yield (banks, pairs, r.sample(LISTED, r.randint(0, 6)), r.choice([None, u"", u"t", u"<a>b</a>c<d/>"]), r.choice(OUTS),
               r.choice(["path", "file", "buffer"]), r.random() < .3, r.random() < .3)


GROUPS = [Group("round trips", gen, check, "6 fixed corpora, 4 ways of writing, 3 modes of reading; random corpora of up to 5 graph pairs")]
