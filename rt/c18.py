# -*- coding: utf-8 -*-
from pgcgen import *
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
import StringIO

eq = ueq
MODES = [LOAD_ALL, LOAD_SPARSE, LOAD_NONE]
NAMES = {LOAD_ALL: "all", LOAD_SPARSE: "sparse", LOAD_NONE: "none"}


def put(s, banks, pairs, where, text=None, relmeta=None):
    """banks: [(id, path from the corpus' directory, graphs or None)]; writes the files"""
    for i, p, graphs in banks:
        if graphs is not None:
            s.put(os.path.join("c", p), bank_xml(graphs))
    paths = [(i, os.path.realpath(s.path("c", p)) if where == "absolute" else p) for i, p, g in banks]
    return s.put("c/corpus.pgc", corpus_xml(paths, pairs, meta=relmeta) if text is None else text)


def content(g):
    """everything in a loaded graph"""
    return (g.id, g.tokens, g.root, [(n, g.node[n]["label"], g.node[n]["tokens"]) for n in g],
            sorted((a, b, g[a][b]["label"]) for a, b in g.edges()))


def want_content(g):
    return (g["id"], g["tokens"].split(), g["root"], [(n, l, t.split(" ")) for n, l, t in g["nodes"]],
            sorted((a, b, l) for a, b, l in g["edges"]))


def verify(c, s, banks, pairs, mode):
    eq(len(c), len(pairs), "number of graph pairs")
    by = dict((i, (p, dict((g["id"], g) for g in gs or []))) for i, p, gs in banks)
    seen, used = {}, {}
    for gp, p in zip(c, pairs):
        for side, bank, graph in zip(("from", "to"), gp.get_banks(), gp.get_graphs()):
            b, g = p[side]
            used.setdefault(b, set()).add(g)
            eq(bank.get_file_path(), os.path.realpath(os.path.join(s.dir, "c", by[b][0])), "path of the bank")
            eq(bank.get_format(), "graphml", "format of the bank")
            holds(seen.setdefault(b, bank) is bank, "one bank per id", b)
            eq(graph.id, g, "graph id")
            holds(seen.setdefault((b, g), graph) is graph, "one graph per bank and id", b, g)
            if mode == LOAD_NONE:
                holds(isinstance(graph, GraphStub), "stubs only", graph)
            else:
                holds(isinstance(graph, DaesoGraph), "a full graph", graph)
                eq(content(graph), want_content(by[b][1][g]), "graph %s of bank %s" % (g, b))
                holds(bank.get_graph(g) is graph, "the bank has the graph", g)
        eq(sorted((x.source, x.target, r) for x, r in gp.alignments()), sorted(p["align"]), "alignments")
        eq(tree(gp.get_meta_data()), tree(elem(p.get("meta"), "graph_meta_data")) or tree(et.Element("graph_meta_data")), "meta data")
    if mode != LOAD_NONE:
        for b in used:
            want = used[b] if mode == LOAD_SPARSE else set(by[b][1])
            eq(set(g.id for g in seen[b]), want, "graphs in bank %s, %s" % (b, NAMES[mode]))
            eq(len(seen[b]), len(want), "size of bank")
            raises(KeyError, "a graph that is not there", seen[b].get_graph, "not there")


def check_load(banks, pairs, where, how):
    with Scratch() as s:
        fn = put(s, banks, pairs, where)
        got = {}
        for mode in MODES:
            c = ParallelGraphCorpus()
            if how == "file":
                c.read(fn, graph_loading=mode)
            elif how == "constructor":
                c = ParallelGraphCorpus(inf=fn, graph_loading=mode)
            elif how == "object":
                f = open(fn, "rb")
                c.read(f, graph_loading=mode)
                f.close()
            got[mode] = c
            verify(c, s, banks, pairs, mode)
        for m in MODES:
            for k in MODES:
                holds(got[m] == got[k], "the same corpus, loaded %s and %s" % (NAMES[m], NAMES[k]))
        c = ParallelGraphCorpus()
        c.read(fn)
        verify(c, s, banks, pairs, LOAD_SPARSE)


def check_missing(banks, pairs, gone):
    """graphs or files that are not there"""
    with Scratch() as s:
        fn = put(s, banks, pairs, "relative")
        used = set(p[x][0] for p in pairs for x in ("from", "to"))
        for i, p, g in banks:
            if i == gone:
                os.remove(s.path("c", p))
        for mode in (LOAD_ALL, LOAD_SPARSE):
            raises(DaesoError, "graphs loaded %s, but not all are there" % NAMES[mode], ParallelGraphCorpus().read, fn, graph_loading=mode)
        c = ParallelGraphCorpus(inf=fn, graph_loading=LOAD_NONE)
        verify(c, s, [b[:2] + (None,) for b in banks], pairs, LOAD_NONE)


def check_text(text, error):
    """corpora with broken XML; a file with one graph g1 is at b.xml"""
    with Scratch() as s:
        s.put("c/b.xml", bank_xml([G1]))
        fn = s.put("c/corpus.pgc", text)
        for mode, e in zip(MODES, error):
            if e:
                raises({"D": DaesoError, "A": AssertionError}[e], "broken corpus, loading %s" % NAMES[mode],
                       ParallelGraphCorpus().read, fn, graph_loading=mode)
            else:
                eq(len(ParallelGraphCorpus(inf=fn, graph_loading=mode)), 1, "number of graph pairs")


def check_relaxed(depth):
    """graph banks next to the corpus"""
    with Scratch() as s:
        s.put("c/b.xml", bank_xml([G1]))
        s.put("d/b.xml", bank_xml([dict(G1, tokens=u"other")]))
        p = [{"from": ("1", "g1"), "to": ("2", "g1"), "align": [("n0", "n0", "equals")]}]
        here, there = os.path.realpath(s.path("c/b.xml")), os.path.realpath(s.path("d/b.xml"))
        for x, y, relaxed, strict in [("../d/b.xml", "b.xml", (there, here), (there, here)),
                                      ("../x/y/b.xml", "../d/b.xml", (here, there), None),
                                      ("/nowhere/b.xml", s.path("d/b.xml"), (here, there), None)]:
            fn = s.put("c/corpus.pgc", corpus_xml([("1", x), ("2", y)], p))
            for mode in MODES:
                c = ParallelGraphCorpus()
                c.read(fn, graph_loading=mode, relax_gb_paths=True)
                eq(tuple(b.get_file_path() for b in c[0].get_banks()), relaxed, "paths of the banks")
                if mode != LOAD_NONE:
                    eq([g.tokens == ["other"] for g in c[0].get_graphs()], [b == there for b in relaxed], "the right banks are loaded")
                c = ParallelGraphCorpus()
                if strict is None and mode != LOAD_NONE:
                    raises(DaesoError, "missing bank", c.read, fn, graph_loading=mode)
                else:
                    c.read(fn, graph_loading=mode)
                    eq(c[0].get_banks().source.get_file_path(), os.path.realpath(os.path.join(s.dir, "c", x)), "paths as given")


def check_stub(n, clients):
    """clients: for each pair the sides of the stub"""
    stub, g = GraphStub("x"), DaesoGraph(id="x")
    ps = []
    for k, side in enumerate(clients):
        o = DaesoGraph(id="o%d" % k)
        o.add_node("b", label="b", tokens=["b"])
        b = Pair(GraphBank("/nowhere/1", "graphml"), GraphBank("/nowhere/2", "graphml"))
        p = GraphPair(b, Pair(stub, o) if side == 0 else Pair(o, stub))
        p.add_align(Pair("a", "b"), "equals")
        ps.append((p, o, side))
        if k < n:
            stub.add_client(p)
    if n == 0:
        return
    stub.replace_stub(g)
    for k, (p, o, side) in enumerate(ps):
        x = tuple(p.get_graphs())
        holds(x[side] is (g if k < n else stub), "stub of client %d is replaced" % k, x)
        holds(x[1 - side] is o, "the other graph stays", x)
        eq(p.get_align(Pair("a", "b")), "equals", "alignments stay")


G1 = {"id": "g1", "tokens": u"a b", "root": "n0", "nodes": [("n0", "X", "a b"), ("n1", "a", "a"), ("n2", "b", "b")],
      "edges": [("n0", "n1", "hd"), ("n0", "n2", None)]}
G2 = dict(G1, id="g2", tokens=u"\xe9 c d", root=None)


def P(a, g, b, h, al=(), meta=None):
    return {"from": (a, g), "to": (b, h), "align": list(al), "meta": meta}


B2 = [("1", "b1.xml", [G1, G2]), ("2", "sub/b2.xml", [G1])]
B3 = [("x", "../up.xml", [G1, G2, dict(G1, id="g3")]), ("y", "b y.xml", []), ("z", "z.xml", [G2, dict(G2, id="g4")])]
AL = [("n0", "n0", "equals"), ("n1", "n2", "restates")]
LOADS = [(B2, []), (B2, [P("1", "g1", "2", "g1", AL)]), (B2, [P("1", "g2", "2", "g1", AL), P("1", "g1", "2", "g1"), P("2", "g1", "1", "g1", AL, u"<a/>")]),
         (B2, [P("1", "g1", "1", "g2", AL, u"t")]), (B3, [P("x", "g1", "z", "g4"), P("z", "g2", "x", "g1", AL), P("x", "g2", "x", "g1")])]


def gen_load(R):
    for b, p in LOADS:
        for where in ("relative", "absolute"):
            for how in ("file", "constructor", "object"):
                yield b, p, where, how
    r = R.rng
    while True:
        banks = []
        for k in range(r.randint(1, 3)):
            graphs = [rand_graph(r, "g%d" % j, 3) for j in range(r.randint(1, 4))]
            banks.append(("b%d" % k, "%sbank%d.xml" % (r.choice(["", "../", "s/"]), k), graphs))
        pairs = []
        for _ in range(r.randint(0, 4)):
            x, y = r.choice(banks), r.choice(banks)
            g, h = r.choice(x[2]), r.choice(y[2])
            if x is not y or g is not h:
                pairs.append(P(x[0], g["id"], y[0], h["id"], rand_align(r, g, h), r.choice([None, u"<a/>"])))
        yield banks, pairs, r.choice(["relative", "absolute"]), r.choice(["file", "constructor", "object"])


def gen_missing(R):
    yield B2, [P("1", "g1", "2", "g2")], None
    yield B2, [P("1", "g3", "2", "g1")], None
    yield B2, [P("1", "g1", "2", "g1"), P("2", "g2", "1", "g1")], None
    for b, p in LOADS[1:3] + LOADS[4:]:
        used = set(q[x][0] for q in p for x in ("from", "to"))
        for i in used:
            yield b, p, i


def gen_text(R):
    ok = corpus_xml([("1", "b.xml"), ("2", "../c/b.xml")], [P("1", "g1", "2", "g1", AL)])
    A = lambda x, y: ok.replace(x, y)
    no = (None, None, None)
    yield ok, no
    yield A(' from_bank_id="1"', ''), ("D", "D", "D")
    yield A(' to_bank_id="2"', ''), ("D", "D", "D")
    yield A(' from_graph_id="g1"', ''), ("D", "D", "D")
    yield A(' to_graph_id="g1"', ''), ("D", "D", "D")
    yield A('from_bank_id="1"', 'from_bank_id="3"'), ("D", "D", "D")
    yield A('to_bank_id="2"', 'to_bank_id="b.xml"'), ("D", "D", "D")
    yield A('to_graph_id="g1"', 'to_graph_id="G1"'), ("D", "D", None)
    yield A('from_graph_id="g1"', 'from_graph_id="g"'), ("D", "D", None)
    yield A(' id="2"', ' id="1"'), ("A", "A", "A")
    yield A('format="graphml"', 'format="GraphML"'), no
    yield A('format="graphml"', 'format="nonsense"'), ("A", "A", None)
    yield A('b.xml<', 'nob.xml<'), ("D", "D", None)
    yield A('<file format="graphml" id="1">', '<file id="1">').replace('<graphbanks>', '<graphbanks format="graphml">'), no
    yield A('<relation>', '<illegal/><relation>').replace('<aligned_graphs>', '<aligned_graphs><illegal2>x</illegal2>'), no
    yield A('<relation>', '\n <relation>\n ').replace('b.xml<', 'b.xml\n  <').replace('>b.xml', '>\n  b.xml'), no


def gen_stub(R):
    for n in range(4):
        for c in ([], [0], [1], [0, 1], [1, 1, 0], [0, 0, 0, 1]):
            if n <= len(c):
                yield n, c


def gen_relaxed(R):
    yield 0,


GROUPS = [Group("loading", gen_load, check_load, "5 fixed corpora, random corpora of up to 3 banks and 4 graph pairs, 3 modes of loading"),
          Group("missing", gen_missing, check_missing, "missing graphs and files", share=.3),
          Group("broken", gen_text, check_text, "16 corpora with missing or wrong attributes, formats, elements", share=.3),
          Group("relaxed", gen_relaxed, check_relaxed, "3 paths of missing banks", share=.2),
          Group("stubs", gen_stub, check_stub, "stubs with up to 3 clients", share=.3)]
