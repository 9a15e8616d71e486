# -*- coding: utf-8 -*-
from base import *
import networkx
from networkx import NetworkXError
from daeso.graph.ograph import ODiGraph

NODES = [0, 1, "", "b", ("c", 2), -1.5]


class Model(object):
    def __init__(self):
        self.succ, self.pred, self.order = {}, {}, []
        self.node, self.data = {}, {}

    def add(self, n, attr, update=True):
        if n not in self.node:
            self.order.append(n)
            self.node[n], self.succ[n], self.pred[n] = {}, [], []
        if update:
            self.node[n].update(attr)

    def link(self, u, v, *attrs):
        self.add(u, {})
        self.add(v, {})
        if v not in self.succ[u]:
            self.succ[u].append(v)
            self.pred[v].append(u)
            self.data[u, v] = {}
        for a in attrs:
            self.data[u, v].update(a)

    def unlink(self, u, v):
        self.succ[u].remove(v)
        self.pred[v].remove(u)
        del self.data[u, v]

    def remove(self, n):
        for v in list(self.succ[n]):
            self.unlink(n, v)
        for u in list(self.pred[n]):
            self.unlink(u, n)
        self.order.remove(n)
        del self.node[n], self.succ[n], self.pred[n]


def same(g, m, what):
    def at(s):
        return "%s: %s" % (what, s)
    eq(sorted(g.nodes(), key=repr), sorted(m.order, key=repr), at("nodes"))
    eq(len(g), len(m.order), at("number of nodes"))
    for n in NODES:
        eq(n in g, n in m.node, at("membership"))
    for n in m.order:
        eq(dict(g.node[n]), m.node[n], at("attributes of a node"))
        eq(list(g.successors(n)), m.succ[n], at("successors in order of insertion"))
        eq(list(g.predecessors(n)), m.pred[n], at("predecessors in order of insertion"))
        eq(g.out_degree(n), len(m.succ[n]), at("out degree"))
        eq(g.in_degree(n), len(m.pred[n]), at("in degree"))
        eq(g.out_edges([n]), [(n, v) for v in m.succ[n]], at("outgoing edges in order"))
        eq(g.in_edges([n]), [(u, n) for u in m.pred[n]], at("incoming edges in order"))
    eq(g.edges(), [(u, v) for u in m.order for v in m.succ[u]],
       at("edges in order of their source nodes and of insertion"))
    eq(g.in_edges(), [(u, v) for v in m.order for u in m.pred[v]], at("incoming edges in order"))
    eq(g.number_of_edges(), len(m.data), at("number of edges"))
    for (u, v), d in m.data.items():
        eq(dict(g[u][v]), d, at("attributes of an edge"))
        eq(dict(g.get_edge_data(u, v)), d, at("data of an edge"))
        holds(g.succ[u][v] is g.pred[v][u], at("both directions share the attributes of an edge"))
    for u in NODES:
        for v in NODES:
            eq(g.has_edge(u, v), (u, v) in m.data, at("has_edge"))


def alone(g, m):
    """changing the attributes of one node or edge changes no other"""
    ds = [g.node[n] for n in m.order] + [g[u][v] for u, v in m.data]
    holds(len(set(map(id, ds))) == len(ds), "nodes and edges have attributes of their own")


def check(data, ops):
    m = Model()
    if data is None:
        g = ODiGraph()
    else:
        g = ODiGraph(data, name="x", a=1)
        for e in data:
            m.link(e[0], e[1], *e[2:])
        eq(g.graph, {"name": "x", "a": 1}, "graph attributes")
    same(g, m, "initially")
    for op in ops:
        o, a = op[0], op[1:]
        if o == "n":
            g.add_node(a[0], **a[1])
            m.add(a[0], a[1])
        elif o == "nd":
            g.add_node(a[0], dict(a[1]), **a[2])
            m.add(a[0], dict(a[1], **a[2]))
        elif o == "ns":
            g.add_nodes_from(iter(a[0]), **a[1])
            for n in a[0]:
                m.add(n, a[1])
        elif o == "e":
            g.add_edge(a[0], a[1], **a[2])
            m.link(a[0], a[1], a[2])
        elif o == "ed":
            g.add_edge(a[0], a[1], dict(a[2]), **a[3])
            m.link(a[0], a[1], a[2], a[3])
        elif o == "es":
            g.add_edges_from([tuple(e) for e in a[0]], **a[1])
            for e in a[0]:
                m.link(e[0], e[1], a[1], *e[2:])
        elif o == "esd":
            g.add_edges_from([tuple(e) for e in a[0]], dict(a[1]), **a[2])
            for e in a[0]:
                m.link(e[0], e[1], a[1], a[2], *e[2:])
        elif o == "rn":
            if a[0] in m.node:
                g.remove_node(a[0])
                m.remove(a[0])
            else:
                raises(NetworkXError, "removing a missing node", g.remove_node, a[0])
        elif o == "re":
            if (a[0], a[1]) in m.data:
                g.remove_edge(a[0], a[1])
                m.unlink(a[0], a[1])
            else:
                raises(NetworkXError, "removing a missing edge", g.remove_edge, a[0], a[1])
        elif o == "rns":
            g.remove_nodes_from(a[0])
            for n in a[0]:
                if n in m.node:
                    m.remove(n)
        elif o == "bad":
            raises(NetworkXError, "edge tuple of a wrong length", g.add_edges_from, [(0,)])
            raises(NetworkXError, "edge tuple of a wrong length", g.add_edges_from, [(0, 1, {}, 2)])
            raises(NetworkXError, "attributes that are no dictionary", g.add_edge, 0, 1, 3)
            raises(NetworkXError, "attributes that are no dictionary", g.add_node, 0, 3)
            raises(NetworkXError, "attributes that are no dictionary", g.add_edges_from, [(0, 1)], 3)
        same(g, m, "after " + o)
    alone(g, m)


def attr(r):
    return dict((k, r.choice([1, None, "v", u"\xe9"])) for k in r.sample(["x", "y", "label"], r.choice([0, 0, 1, 2])))


def rand_op(r, nodes):
    n = lambda: r.choice(nodes)
    edge = lambda: [n(), n()] + ([attr(r)] if r.random() < .4 else [])
    k = r.choice(["n", "nd", "ns", "e", "e", "e", "ed", "es", "esd", "rn", "re", "re", "rns", "bad"])
    return {"n": lambda: ["n", n(), attr(r)], "nd": lambda: ["nd", n(), attr(r), attr(r)],
            "ns": lambda: ["ns", [n() for _ in range(r.randint(0, 4))], attr(r)],
            "e": lambda: ["e", n(), n(), attr(r)], "ed": lambda: ["ed", n(), n(), attr(r), attr(r)],
            "es": lambda: ["es", [edge() for _ in range(r.randint(0, 4))], attr(r)],
            "esd": lambda: ["esd", [edge() for _ in range(r.randint(0, 3))], attr(r), attr(r)],
            "rn": lambda: ["rn", n()], "re": lambda: ["re", n(), n()],
            "rns": lambda: ["rns", [n() for _ in range(r.randint(0, 2))]], "bad": lambda: ["bad"]}[k]()


def gen_small(R):
    ops = [["n", 0, {"x": 1}], ["ns", [1, 0], {"x": 2}], ["e", 0, 1, {}], ["e", 1, 0, {"x": 1}], ["ed", 0, 0, {"x": 3}, {"y": 4}],
           ["es", [[0, 1, {"x": 5}], [1, 1]], {"x": 6}], ["rn", 0], ["re", 0, 1], ["bad"]]
    for k in range(R.pick(3, 4) + 1):
        for c in itertools.product(ops, repeat=k):
            yield None, list(c)


def gen_random(R):
    r = R.rng
    while True:
        nodes = NODES[:r.choice([2, 3, 6])]
        edge = lambda: tuple([r.choice(nodes), r.choice(nodes)] + ([attr(r)] if r.random() < .4 else []))
        data = None if r.random() < .6 else [edge() for _ in range(r.randint(1, 5))]
        yield data, [rand_op(r, nodes) for _ in range(r.randint(1, R.pick(12, 25)))]


GROUPS = [Group("short histories", gen_small, check, "all histories of up to 3 (quick) or 4 (thorough) of 9 operations on 2 nodes"),
          Group("random histories", gen_random, check, "random histories of up to 12 or 25 operations on up to 6 nodes, "
                "optionally starting from a list of edges")]
