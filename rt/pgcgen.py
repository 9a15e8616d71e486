# -*- coding: utf-8 -*-
# shared: parallel graph corpora in memory and what they show
from gp import *
from gbgen import *
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE, LOAD_NONE
from daeso.pgc.graphpair import GraphPair
from daeso.exception import DaesoError, DaesoWarning

warnings.simplefilter("ignore", DaesoWarning)


def elem(xml, tag):
    """element tree of a string of meta data"""
    return None if xml is None else et.fromstring((u"<%s>%s</%s>" % (tag, xml, tag)).encode("utf-8"))


def tree(e):
    """an element as plain data, up to white space around its texts"""
    if e is None:
        return None
    return (e.tag, (e.text or "").strip(), (e.tail or "").strip(), sorted(e.attrib.items()), [tree(c) for c in e])


def pair(banks, ids, align=(), meta=None):
    kw = {} if meta is None else {"meta_data": elem(meta, "graph_meta_data")}
    gp = GraphPair(Pair(*banks), Pair(*[DaesoGraph(id=i) for i in ids]), **kw)
    for s, t, r in align:
        gp.add_align(Pair(s, t), r)
    return gp


def shown(gp):
    """everything observable of a graph pair"""
    b, g = gp.get_banks(), gp.get_graphs()
    return ([x.get_file_path() for x in b], [x.get_format() for x in b], [x.id for x in g],
            sorted((p.source, p.target, r) for p, r in gp.alignments()), tree(gp.get_meta_data()))
