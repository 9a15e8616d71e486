# -*- coding: utf-8 -*-
from base import *
import string
from networkx import NetworkXError
from daeso.graph.daesograph import DaesoGraph

TOKENS = [None, [], ["a"], ["."], ["a", "."], [".", "!?"], [u"\xe9"], ["..."], [""]]
NAMES = [0, "", "n", 3, ("t", 1)]


def build(nodes, edges, root):
    g = DaesoGraph(id="g", root=root)
    for n, lab, toks in nodes:
        g.add_node(n, lab, toks)
    for u, v, lab in edges:
        g.add_edge(u, v, lab)
    return g


def punct(toks):
    return bool(toks) and all(t in string.punctuation for t in toks)


def check(nodes, edges, root):
    g = build(nodes, edges, root)
    toks = dict((n, t or []) for n, l, t in nodes)
    succ = dict((n, []) for n in toks)
    labels = {}
    for u, v, lab in edges:
        if v not in succ[u]:
            succ[u].append(v)
        labels[u, v] = lab
    for n, lab, t in nodes:
        eq(g.node[n]["label"], dict((x, l) for x, l, _ in nodes)[n], "label of a node")
        eq(g.get_node_tokens(n), toks[n], "tokens of a node")
        eq(g.get_node_token_string(n), " ".join(toks[n]), "token string of a node")
        eq(bool(g.node_is_non_terminal(n)), bool(succ[n]), "a non-terminal has successors")
        eq(bool(g.node_is_punct(n)), punct(toks[n]), "punctuation nodes")
        eq(bool(g.node_is_empty(n)), not toks[n], "empty nodes")
    for e, lab in labels.items():
        eq(g[e[0]][e[1]]["label"], lab, "label of an edge")
    eq(sorted(g.edges()), sorted(labels), "edges")
    eq(sorted(g.non_terminals()), sorted(n for n in succ if succ[n]), "non-terminals")
    eq(list(g.non_terminals_iter()), g.non_terminals(), "iterator over non-terminals")
    for wp, we in itertools.product([True, False], repeat=2):
        def term(n):
            return not succ[n] and (wp or not punct(toks[n])) and (we or bool(toks[n]))
        kw = dict(with_punct=wp, with_empty=we)
        for n in succ:
            eq(bool(g.node_is_terminal(n, **kw)), term(n), "terminals admitted")
        eq(sorted(g.terminals(**kw)), sorted(n for n in succ if term(n)), "terminals")
        eq(list(g.terminals_iter(**kw)), g.terminals(**kw), "iterator over terminals")
        for start in list(succ) + ([None] if root is not None else []):
            want, seen = [], set()

            def visit(n):
                if n in seen:
                    return
                seen.add(n)
                if term(n):
                    want.append(n)
                for w in succ[n]:
                    visit(w)
            visit(root if start is None else start)
            eq(g.terminal_yield(start, **kw), want, "yield of a node: the admitted terminals it dominates, in pre-order")
            if start is None:
                eq(g.terminal_yield(**kw), want, "yield of the root")
    for n in NAMES + ["missing"]:
        for m in NAMES[:2]:
            if n in toks and m in toks:
                continue
            for u, v in ((n, m), (m, n)):
                raises(ValueError, "edge to a missing node", g.add_edge, u, v)
                raises(ValueError, "edge to a missing node", g.add_edges_from, [(u, v)])
                raises(ValueError, "edge to a missing node", g.add_edges_from, [(u, v, {"x": 1})])
    eq(sorted(g.nodes()), sorted(toks), "nodes after failures")
    eq(sorted(g.edges()), sorted(labels), "edges after failures")


def gen_trees(R):
    """all shapes of small trees with all assignments of some token lists"""
    names = NAMES
    for k in range(1, R.pick(4, 5)):
        for parents in itertools.product(*[range(i) for i in range(1, k)]):
            for ts in itertools.product([1, 2, 3], repeat=k):
                nodes = [(names[i], "l%d" % i, TOKENS[ts[i]]) for i in range(k)]
                yield nodes, [(names[p], names[i + 1], None) for i, p in enumerate(parents)], names[0]


def gen_random(R):
    r = R.rng
    while True:
        k = r.randint(1, 5)
        ns = r.sample(NAMES, k)
        nodes = [(n, r.choice(["x", None, u"\xe9"]), r.choice(TOKENS)) for n in ns]
        edges = [(r.choice(ns), r.choice(ns), r.choice(["hd", None])) for _ in range(r.randint(0, 2 * k))]
        yield nodes, edges, r.choice(ns)


def check_deep(depth, width):
    """long chains do not exhaust anything"""
    g = DaesoGraph(root=0)
    for i in range(depth + width + 1):
        g.add_node(i, "x", ["w"])
    for i in range(depth):
        g.add_edge(i, i + 1)
    for i in range(width):
        g.add_edge(depth, depth + 1 + i)
    eq(g.terminal_yield(), range(depth + 1, depth + width + 1) if width else [depth], "yield of a deep tree")


def check_edges(ops):
    """edges between existing nodes with labels and attributes, one by one or together"""
    g = DaesoGraph()
    for n in NAMES:
        g.add_node(n, "x")
    want, order = {}, []
    for how, es, lab, d, kw in ops:
        if how == "one":
            for e in es:
                args = (e[0], e[1], lab) + (() if d is None else (dict(d),))
                g.add_edge(*args, **kw)
        else:
            g.add_edges_from([tuple(e) for e in es], lab, None if d is None else dict(d), **kw)
        for e in es:
            k = (e[0], e[1])
            if k not in want:
                order.append(k)
            x = want.setdefault(k, {})
            x.update(d or {}, **kw)
            x["label"] = lab
            if how != "one" and len(e) > 2:
                x.update(e[2])
    for (u, v), d in want.items():
        eq(dict(g[u][v]), d, "attributes of an edge")
        holds(g.pred[v][u] is g.succ[u][v], "both directions share attributes")
    for n in NAMES:
        eq(g.successors(n), [v for u, v in order if u == n], "successors in order")
        eq(g.predecessors(n), [u for u, v in order if v == n], "predecessors in order")
    holds(len(set(id(g[u][v]) for u, v in want)) == len(want), "edges have attributes of their own")


def gen_edges(R):
    r = R.rng
    while True:
        ops = []
        for _ in range(r.randint(1, 4)):
            es = [[r.choice(NAMES), r.choice(NAMES)] + ([{"label": "own", "z": 1}] if r.random() < .3 else [])
                  for _ in range(r.randint(1, 3))]
            ops.append([r.choice(["one", "many"]), es, r.choice([None, "l", "m"]), r.choice([None, {"x": 1}, {"y": 2, "label": "q"}]),
                        r.choice([{}, {"w": 3}])])
        yield ops,


def check_tokens(toks, s):
    g = DaesoGraph(tokens=toks)
    if toks is None:
        eq(g.get_graph_token_string(), None, "no tokens, no string")
    else:
        eq(g.get_graph_token_string(), " ".join(toks), "token string of a graph")
    g.set_graph_token_string(s)
    eq(g.tokens, s.split(), "tokens of a token string")
    g.add_node(0, "x", toks)
    g.set_node_tokens(0, toks)
    eq(g.get_node_tokens(0), toks, "tokens of a node as set")
    eq(g.get_node_token_string(0), None if toks is None else " ".join(toks), "token string of a node")
    g.set_node_token_string(0, s)
    eq(g.get_node_tokens(0), s.split(" "), "tokens of a node from a string")
    eq(g.get_node_token_string(0), s, "token string as set")


def gen_tokens(R):
    for t in TOKENS:
        for s in ["", "a", "a b", " a  b ", u"\xe9 x"]:
            yield t, s


GROUPS = [
    Group("tokens", gen_tokens, check_tokens, "all of some token lists and strings", share=.1),
    Group("deep", lambda R: iter([(d, w) for d in (0, 1, 50, 3000) for w in (0, 1, 3)]), check_deep,
          "chains of up to 3000 nodes", share=.2),
    Group("trees", gen_trees, check, "all trees of up to 3 (quick) or 4 nodes with all assignments of 3 token lists"),
    Group("graphs", gen_random, check, "random graphs of up to 5 nodes and 10 edges, cycles included"),
    Group("edges", gen_edges, check_edges, "random additions of labelled edges")]
