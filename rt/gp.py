# -*- coding: utf-8 -*-
# shared: model of alignments
from base import *
import copy
import xml.etree.cElementTree as et
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphMapping, GraphMatching, GraphPairBase
import networkx

RELS = ["equals", "restates", "generalizes", "specifies", "intersects"]


def new(cls, banks=("b1", "b2"), ids=("g1", "g2"), stub=False, **kw):
    g = [GraphStub(i) if stub else DaesoGraph(id=i) for i in ids]
    return cls(Pair(*[GraphBank("/nowhere/" + b, "graphml") for b in banks]), Pair(*g), **kw)


def state(gp):
    return sorted((p.source, p.target, r) for p, r in gp.alignments())


def agree(gp, model, what):
    """the graph pair shows exactly the alignments of the model (dict of pairs)"""
    want = sorted((s, t, r) for (s, t), r in model.items())
    eq(state(gp), want, "alignments " + what)
    eq(len(gp), len(model), "number of alignments " + what)
    eq(sorted(gp.nodes()), sorted(set(n for p in model for n in p)), "exactly the aligned nodes are present " + what)
    eq(sorted((a, b) for a, b in gp.edges()), sorted(model), "edges " + what)
    eq(sorted((p.source, p.target, r) for p, r in gp.alignments_iter()), want, "iterated alignments " + what)
    seen = set(n for p in model for n in p) | set(["never"])
    for s in seen:
        for t in seen:
            eq(gp.get_align(Pair(s, t)), model.get((s, t)), "get_align(%r, %r) %s" % (s, t, what))
    for rels in ([RELS[0]], RELS[1:3], tuple(RELS), set(RELS[2:]), []):
        eq(sorted((p.source, p.target, r) for p, r in gp.alignments(relations=rels)),
           [x for x in want if not rels or x[2] in rels], "alignments with relation in %r %s" % (rels, what))


def run(cls, ops):
    gp = new(cls)
    model = {}
    one = cls is GraphMatching
    for k, op in enumerate(ops):
        what = "after %r" % (ops[:k + 1],)
        if op[0] == "add":
            s, t, r = op[1:]
            if one:
                for p in list(model):
                    if p[0] == s or p[1] == t:
                        del model[p]
            model[s, t] = r
            eq(gp.add_align(Pair(s, t), r), None, "add_align returns nothing")
        elif op[0] == "del":
            s, t = op[1:]
            if (s, t) in model:
                del model[s, t]
                gp.del_align(Pair(s, t))
            else:
                raises(networkx.NetworkXError, "deleting an absent alignment raises", gp.del_align, Pair(s, t))
        elif op[0] == "copy":
            g2 = copy.deepcopy(gp)
            holds(type(g2) is cls, "copy has the same class", type(g2))
            agree(g2, model, "of the copy " + what)
            # changing the copy does not change the original
            g2.add_align(Pair("zz1", "zz2"), RELS[0])
            for (s, t) in list(model)[:1]:
                g2.add_align(Pair(s, t), "changed")
            agree(gp, model, "of the original after changing its copy " + what)
        if one:
            for n in set(x for p in model for x in p) | set(["never"]):
                eq(gp.get_aligned_target_node(n), dict(model.keys()).get(n), "aligned target node of %r %s" % (n, what))
                eq(gp.get_aligned_source_node(n), dict((t, s) for s, t in model).get(n),
                   "aligned source node of %r %s" % (n, what))
        if k >= len(ops) - 2:
            agree(gp, model, what)
        else:
            eq(state(gp), sorted((s, t, r) for (s, t), r in model.items()), "alignments " + what)
    return gp, model


def gen_ops(R, names, rels, exhaust):
    """histories over shared source and target names"""
    acts = [("add", s, t, r) for s in names for t in names for r in rels] + \
        [("del", s, t) for s in names for t in names]
    for n in range(1, exhaust + 1):
        for h in itertools.product(acts, repeat=n):
            yield (list(h) + [("copy",)] if n == exhaust and R.rng.random() < 0.1 else list(h),)


def rand_ops(R, pool=("a", "b", "c", "d", 0, 1, "")):
    n = R.rng.randint(1, 14)
    ns = R.rng.sample(pool, R.rng.randint(2, len(pool)))
    h = []
    for _ in range(n):
        x = R.rng.random()
        if x < 0.65:
            h.append(("add", R.rng.choice(ns), R.rng.choice(ns), R.rng.choice(RELS)))
        elif x < 0.93:
            h.append(("del", R.rng.choice(ns), R.rng.choice(ns)))
        else:
            h.append(("copy",))
    return (h,)
