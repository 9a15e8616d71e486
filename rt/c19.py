# -*- coding: utf-8 -*-
from gbgen import *
from daeso.gb.graphml import GraphmlParser
from daeso.exception import DaesoError
import StringIO

# a document: keys [(id, for or None, name, default or None)], graphs [(id, items)]
# items: ("data", key, text), ("node", id, [(key, text)]), ("edge", from, to, [(key, text)]), ("desc", text), ("odd", tag)


def xml(keys, graphs):
    out = [u'<?xml version="1.0" encoding="UTF-8"?>\n<graphml xmlns="http://graphml.graphdrawing.org/xmlns">']
    for i, f, n, d in keys:
        out.append(u'<key id=%s%s attr.name=%s>%s</key>' % (
            quoteattr(i), u"" if f is None else u" for=%s" % quoteattr(f), quoteattr(n),
            u"" if d is None else u"\n <default>%s</default>\n" % escape(d)))
    data = lambda ds: u"".join(u"\n <data key=%s>%s</data>" % (quoteattr(k), escape(t)) for k, t in ds)
    for g, items in graphs:
        out.append(u'<graph id=%s edgedefault="directed">' % quoteattr(g))
        for x in items:
            if x[0] == "data":
                out.append(data([x[1:]]))
            elif x[0] == "node":
                out.append(u"<node id=%s>%s</node>" % (quoteattr(x[1]), data(x[2])))
            elif x[0] == "edge":
                out.append(u"<edge source=%s target=%s>%s</edge>" % (quoteattr(x[1]), quoteattr(x[2]), data(x[3])))
            elif x[0] == "desc":
                out.append(u"<desc>%s</desc>" % escape(x[1]))
            else:
                out.append(u"<%s>text</%s>" % (x[1], x[1]))
        out.append(u'</graph>')
    return (u"\n".join(out + [u'</graphml>\n'])).encode("utf-8")


class Bad(Exception):
    pass


def expect(keys, graphs, wanted):
    """what the document says; Bad if it breaks a requirement"""
    def name(comp, key):
        for f in (comp, "all"):
            for i, g, n, d in keys:
                if i == key and (g or "all") == f:
                    return n
        raise Bad("undefined key")

    def defaults(comp):
        return dict([(n, d) for f in ("all", comp) for i, g, n, d in keys if (g or "all") == f and d is not None])
    out = {}
    for g, items in graphs:
        if wanted is not None and g not in wanted:
            continue
        ga, nodes, order, edges = defaults("graph"), {}, [], {}
        for x in items:
            if x[0] == "data":
                ga[name("graph", x[1])] = x[2]
            elif x[0] == "node":
                a = {"label": None}
                a.update(nodes.get(x[1], {}))
                a.update({"label": None, "tokens": None})
                a.update(defaults("node"))
                for k, t in x[2]:
                    a[name("node", k)] = t
                if not a["label"] or a["tokens"] is None:
                    raise Bad("node lacks label or tokens")
                nodes[x[1]] = a
                order.append(x[1])
            elif x[0] == "edge":
                a = {"label": None}
                a.update(defaults("edge"))
                for k, t in x[3]:
                    a[name("edge", k)] = t
                edges[x[1], x[2]] = a
        if "tokens" not in ga:
            raise Bad("graph lacks tokens")
        toks = ga.pop("tokens").split()
        for a in nodes.values():
            a["tokens"] = a["tokens"].split(u" ")
        ga.setdefault("name", "")   # of every graph in networkx
        out[g] = (g, toks, ga.get("root"), order, nodes, edges, ga)
    for w in wanted or []:
        if w not in out:
            raise Bad("missing graph")
    return out


def observed(g):
    return (g.id, g.tokens, g.root, g.nodes(), dict((n, dict(g.node[n])) for n in g),
            dict(((s, t), dict(g[s][t])) for s, t in g.edges()), dict(g.graph))


def parse(how, doc, wanted, given):
    p = GraphmlParser()
    d = {"old": 0} if given else (None if wanted is None else {})
    if wanted is not None:
        d.update(dict.fromkeys(wanted))
    args = () if d is None else (d,)
    sparse = wanted is not None
    if how[0] in ("file", "object"):
        with Scratch() as s:
            fn = s.put("b.xml", doc)
            if how[0] == "file":
                r = p.parse_file(fn, *args, sparse=sparse)
            else:
                f = open(fn, "rb")
                r = p.parse_file(f, *args, sparse=sparse)
                f.close()
    elif how[0] == "buffer":
        r = p.parse_file(StringIO.StringIO(doc), *args, sparse=sparse)
    else:
        n = how[1]
        if d is None:
            d = {}
        for i in range(0, len(doc), n):
            r = p.parse_string(doc[i:i + n], d, sparse=sparse)
        p.close()
    if d is not None:
        holds(r is d, "the given dict is filled and returned")
    return r


def check(how, keys, graphs, wanted, given=False):
    doc = xml(keys, graphs)
    keys, graphs, wanted = uni(keys), uni(graphs), uni(wanted)
    try:
        want = expect(keys, graphs, wanted)
    except Bad:
        raises(DaesoError, "a graph bank that breaks the requirements", parse, how, doc, wanted, given)
        return
    got = parse(how, doc, wanted, given)
    if given:
        eq(got.pop("old"), 0, "other graphs in the given dict")
    eq(sorted(got), sorted(want), "ids of the graphs")
    for i in want:
        g = uni(observed(got[i]))
        for k, w, l in zip(g, want[i], ("id", "tokens", "root", "nodes in order", "attributes of nodes", "edges", "attributes of the graph")):
            eq(k, w, "%s of graph %s" % (l, i))
        eq(uni(got[i].get_graph_token_string()), u" ".join(want[i][1]), "token string of graph %s" % i)
        for n in want[i][3]:
            eq(uni(got[i].get_node_tokens(n)), want[i][4][n]["tokens"], "tokens of node %s" % n)
            eq([m for m in got[i].successors(n)], uniq([x[2] for x in dict(graphs_of(graphs))[i] if x[0] == "edge" and x[1] == n]),
               "daughters of node %s in order" % n)


def graphs_of(graphs):
    return [(g, items) for g, items in graphs]


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


K0 = [("label", "node", "label", None), ("tokens", None, "tokens", None), ("root", "graph", "root", None), ("el", "edge", "label", None)]
T = lambda *x: [("data", "tokens", u"a b c"), ("data", "root", "n0")] + list(x)
N = lambda i, *ds: ("node", i, [("label", "NP"), ("tokens", "a b")] + list(ds))
HOW = [("file",), ("object",), ("buffer",), ("string", 10000), ("string", 7)]
FIXED = [
    (K0, [("g0", T(N("n0"), N("n1"), ("edge", "n0", "n1", [("el", "hd")])))], None),
    (K0, [("g0", T(N("n0"), N("n1"), ("edge", "n0", "n1", [])) )], None),
    # data of the graph last
    (K0, [("g0", [N("n0"), N("n1"), ("edge", "n0", "n1", [("el", "hd")]), ("data", "root", "n1"), ("data", "tokens", "x")])], None),
    (K0, [("g0", [N("n0"), ("data", "tokens", "x y"), ("data", "root", "n0")])], None),
    # defaults
    (K0 + [("kind", None, "kind", u"dflt & <all>"), ("pos", "node", "pos", "N"), ("w", "edge", "weight", "1")],
     [("g0", T(N("n0"), N("n1", ("pos", "V")), ("edge", "n0", "n1", []), ("edge", "n1", "n0", [("w", "2"), ("kind", "x")])))], None),
    ([("label", "node", "label", "X"), ("tokens", None, "tokens", "t u"), ("root", "graph", "root", "n1")],
     [("g0", [("node", "n0", []), ("node", "n1", [("tokens", "v")]), ("edge", "n0", "n1", [])]), ("g1", [])], None),
    ([("label", None, "label", "X"), ("tokens", "node", "tokens", "t u"), ("gt", "graph", "tokens", "w")],
     [("g0", [("node", "n0", []), ("node", "n1", [("tokens", "v")]), ("data", "gt", "z")])], None),
    ([("k", None, "kind", "a"), ("k2", "node", "kind", "b")] + K0, [("g0", T(N("n0"), N("n1", ("k", "c")), N("n2", ("k2", "d"))))], None),
    ([("k", None, "all-kind", "a"), ("k", "node", "node-kind", "b"), ("k", "edge", "edge-kind", None)] + K0,
     [("g0", T(N("n0", ("k", "1")), N("n1"), ("edge", "n0", "n1", [("k", "2")]), ("data", "k", "3")))], None),
    # broken requirements
    (K0, [("g0", [N("n0")])], None), (K0, [("g0", T(("node", "n0", [("tokens", "x")])))], None),
    (K0, [("g0", T(("node", "n0", [("label", "x")])))], None), (K0, [("g0", T(("node", "n0", [("label", "x"), ("tokens", " ")])))], None),
    (K0, [("g0", T(("node", "n0", [("label", ""), ("tokens", "x")])))], None), (K0, [("g0", T(N("n0", ("nokey", "x"))))], None),
    (K0, [("g0", T(N("n0"), ("data", "label", "x")))], None), (K0, [("g0", T(N("n0"), N("n1"), ("edge", "n0", "n1", [("label", "x")])))], None),
    # sparse
    (K0, [("g0", [N("n0")]), ("g1", T(N("n0"))), ("g2", T(("node", "n0", [])))], ["g1"]), (K0, [("g0", T()), ("g1", T())], ["g1", "g0"]),
    (K0, [("g0", T()), ("g1", T())], []), (K0, [("g0", T()), ("g1", T())], ["g2"]), (K0, [("g0", T()), ("g1", T())], ["g2", "g0"]),
    (K0, [("g0", T()), ("g1", T())], ["g0"]),
    # text, other elements
    (K0, [(u"g\xe9", [("data", "tokens", u"  \xe9\xe9n <a> & b\n\tc"), N("n0", ("label", u"a&b"), ("tokens", u"\u20ac 1"))])], None),
    (K0, [("g0", T(("desc", "d"), N("n0"), ("odd", "d"), ("odd", "node2"), ("odd", "e"), N("n1"), ("desc", "x"), ("edge", "n1", "n0", [])))], None),
    (K0 + [("p", "port", "p", "1"), ("h", "hyperedge", "h", None)], [("g0", T(N("n0")))], None), ([], [], None), ([], [], ["x"]),
    (K0, [("g0", [("data", "tokens", "")])], None),
]


def gen_fixed(R):
    for c in FIXED:
        for h in HOW:
            for given in (False, True):
                yield (h,) + c + (given,)


def gen_random(R):
    r = R.rng
    while True:
        keys = [("l", r.choice(["node", None]), "label", r.choice([None, None, u"L"])),
                ("t", None, "tokens", r.choice([None, None, u"t \xe9"])), ("r", r.choice(["graph", None]), "root", r.choice([None, None, "n1"])),
                ("x", r.choice(["node", None, "edge", "graph"]), "extra", r.choice([None, u"", u"d<"])),
                ("e", "edge", "label", r.choice([None, "hd"]))]
        if keys[0][1] is None and r.random() < .8:
            keys.pop()
        r.shuffle(keys)
        graphs = []
        for i in range(r.randint(0, 3)):
            g = rand_graph(r, "g%d" % i, 4)
            has = lambda k: r.random() < .9 or not [x for x in keys if x[0] == k and x[3] is not None]
            nodes = []
            for n, l, t in g["nodes"]:
                ds = [(k, v) for k, v in (("l", l), ("t", t)) if has(k) and r.random() < .99]
                if r.random() < .2 and [x for x in keys if x[0] == "x" and x[1] in ("node", None)]:
                    ds.append(("x", r.choice(WORDS)))
                r.shuffle(ds)
                nodes.append(("node", n, ds))
            ekeys = [x[0] for x in keys if x[0] == "e" or x[0] == "x" and x[1] in ("edge", None)]
            edges = [("edge", s, t, [(r.choice(ekeys), l)] if l and ekeys else []) for s, t, l in g["edges"]]
            data = [("data", "t", g["tokens"])] * (r.random() < .97) + [("data", "r", "n0")] * (r.random() < .7)
            if r.random() < .1 and [x for x in keys if x[0] == "x" and x[1] in ("graph", None)]:
                data.append(("data", "x", r.choice(WORDS)))
            where = r.random()
            items = nodes + edges
            for d in data:
                items.insert(0 if where < .5 else r.randint(0, len(items)), d)
            graphs.append((g["id"], items))
        wanted = None
        if r.random() < .5:
            wanted = [g[0] for g in graphs if r.random() < .6] + ["zz"] * (r.random() < .1)
        yield r.choice(HOW[:4] + [("string", r.randint(1, 300))]), keys, graphs, wanted, r.random() < .3


GROUPS = [Group("documents", gen_fixed, check, "28 documents (defaults, order, broken requirements, sparse), 5 ways of parsing", share=.5),
          Group("random documents", gen_random, check, "documents of up to 3 graphs of up to 16 nodes")]
