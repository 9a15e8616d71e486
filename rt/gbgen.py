# -*- coding: utf-8 -*-
# shared: graph banks and corpora as plain data, written as XML into a scratch directory
#   graph: {"id", "tokens", "root", "nodes": [(name, label, tokens)], "edges": [(from, to, label or None)]}
#   pair:  {"from": (bank, graph), "to": (bank, graph), "align": [(source, target, relation)], "meta": xml or None}
from base import *
import os, shutil, tempfile, warnings
from xml.sax.saxutils import escape, quoteattr

RELS = ["equals", "generalizes", "intersects", "restates", "specifies"]
WORDS = ["the", "cat", "sat", "on", "mat", ".", "and", u"\xe9\xe9n", "a&b", "<x>", ","]


def uni(x):
    """all texts as unicode"""
    if isinstance(x, str):
        return x.decode("utf-8")
    if isinstance(x, (list, tuple)):
        return type(x)([uni(y) for y in x])
    if isinstance(x, (set, frozenset)):
        return type(x)([uni(y) for y in x])
    if isinstance(x, dict):
        return dict((uni(k), uni(v)) for k, v in x.items())
    return x


def ueq(got, expected, what):
    """equality irrespective of the type of texts"""
    eq(uni(got), uni(expected), what)


class Scratch(object):
    """a directory that is removed afterwards"""
    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="vrt"))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def path(self, *p):
        fn = os.path.normpath(os.path.join(self.dir, *p))
        if not os.path.isdir(os.path.dirname(fn)):
            os.makedirs(os.path.dirname(fn))
        return fn

    def put(self, name, text):
        fn = self.path(name)
        f = open(fn, "wb")
        try:
            f.write(text.encode("utf-8") if isinstance(text, unicode) else text)
        finally:
            f.close()
        return fn


def slurp(fn):
    f = open(fn, "rb")
    try:
        return f.read()
    finally:
        f.close()


def bank_xml(graphs):
    out = [u'<?xml version="1.0" encoding="UTF-8"?>\n<graphml>',
           u'<key id="label" for="node" attr.name="label" attr.type="string"/>',
           u'<key id="elabel" for="edge" attr.name="label"/>',
           u'<key id="tokens" attr.name="tokens" attr.type="string"/>',
           u'<key id="root" for="graph" attr.name="root" attr.type="string"/>']
    for g in graphs:
        out.append(u'<graph id=%s edgedefault="directed">' % quoteattr(g["id"]))
        out.append(u'<data key="tokens">%s</data>' % escape(g["tokens"]))
        if g.get("root") is not None:
            out.append(u'<data key="root">%s</data>' % escape(g["root"]))
        for n, l, t in g["nodes"]:
            out.append(u'<node id=%s><data key="label">%s</data><data key="tokens">%s</data></node>' % (
                quoteattr(n), escape(l), escape(t)))
        for s, t, l in g["edges"]:
            out.append(u'<edge source=%s target=%s>%s</edge>' % (quoteattr(s), quoteattr(t), u'' if l is None else
                                                                 u'<data key="elabel">%s</data>' % escape(l)))
        out.append(u'</graph>')
    return u"\n".join(out + [u'</graphml>\n'])


def corpus_xml(banks, pairs, rels=None, meta=None, format="graphml"):
    """banks: [(id, path)]"""
    out = [u'<?xml version="1.0" encoding="utf-8"?>\n<parallel_graph_corpus>']
    if meta is not None:
        out.append(u'<corpus_meta_data>%s</corpus_meta_data>' % meta)
    out.append(u'<graphbanks>')
    for i, p in banks:
        out.append(u'<file format=%s id=%s>%s</file>' % (quoteattr(format), quoteattr(i), escape(p)))
    out.append(u'</graphbanks><node_relations>')
    for r in RELS if rels is None else rels:
        out.append(u'<relation>%s</relation>' % escape(r))
    out.append(u'</node_relations><aligned_graphs>')
    for p in pairs:
        out.append(u'<graph_pair from_bank_id=%s from_graph_id=%s to_bank_id=%s to_graph_id=%s>' % tuple(
            map(quoteattr, tuple(p["from"]) + tuple(p["to"]))))
        if p.get("meta") is not None:
            out.append(u'<graph_meta_data>%s</graph_meta_data>' % p["meta"])
        for s, t, r in p["align"]:
            out.append(u'<node_pair from_node_id=%s to_node_id=%s relation=%s/>' % tuple(map(quoteattr, (s, t, r))))
        out.append(u'</graph_pair>')
    return u"\n".join(out + [u'</aligned_graphs></parallel_graph_corpus>\n'])


# ------------------------------------------------------------ random data
def rand_graph(r, gid, size=6, words=WORDS):
    """a tree over tokens, nodes named n0, n1, ..."""
    toks = [r.choice(words) for _ in range(r.randint(1, max(1, size // 2)))]
    nodes, edges, todo = [], [], [(0, toks, None)]
    k = 0
    while todo:
        i, ts, up = todo.pop(0)
        name = "n%d" % k
        k += 1
        leaf = len(ts) == 1 and (r.random() < .6 or k > size)
        nodes.append((name, ts[0] if leaf else r.choice(["S", "NP", "VP"]), u" ".join(ts)))
        if up is not None:
            edges.append((up, name, r.choice([None, "hd", "su"])))
        if not leaf and k < 4 * size:
            if len(ts) == 1:
                todo.append((0, ts, name))
            else:
                c = r.randint(1, len(ts) - 1)
                todo.append((0, ts[:c], name))
                todo.append((0, ts[c:], name))
    return {"id": gid, "tokens": u" ".join(toks), "root": "n0", "nodes": nodes, "edges": edges}


def rand_align(r, g, h, rels=RELS, p=.5):
    """a matching between the nodes of two graphs"""
    a = [n[0] for n in g["nodes"]]
    b = [n[0] for n in h["nodes"]]
    r.shuffle(a)
    r.shuffle(b)
    return sorted((s, t, r.choice(rels)) for s, t in zip(a, b) if r.random() < p)


def terminals(g):
    return set(n[0] for n in g["nodes"]) - set(e[0] for e in g["edges"])
