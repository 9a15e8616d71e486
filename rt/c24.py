# -*- coding: utf-8 -*-
from gbgen import *
from StringIO import StringIO
import xml.etree.cElementTree as et
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree

warnings.simplefilter("ignore")
# a text: (tag, id or None, text, tail, children)
TAGS = ["doc", "p", "s", "w", "note"]


def text_xml(t):
    tag, i, text, tail, kids = t
    a = u"" if i is None else u" id=%s" % quoteattr(i)
    return u"<%s%s>%s%s</%s>%s" % (tag, a, escape(text), u"".join(map(text_xml, kids)), tag, escape(tail))


def put_text(s, name, t):
    return s.put(name, u'<?xml version="1.0" encoding="utf-8"?>\n' + text_xml(t))


def nodes(t):
    yield t
    for k in t[4]:
        for x in nodes(k):
            yield x


def layout(t, ignore, newline, blank):
    """[(start, end) or None if ignored] per element in order of the document, and the whole text"""
    out = []

    def go(t, start, ign):
        at = len(out)
        out.append(None)
        if ign or t[0] in ignore:
            for k in t[4]:
                go(k, None, True)
            return t[3].strip()
        text = t[2].strip()
        for k in t[4]:
            text += go(k, start + len(text), False)
        out[at] = start, start + len(text)
        return text + ("\n\n" if t[0] in blank else "\n" if t[0] in newline else "") + t[3].strip()
    whole = go(t, 0, False)
    return out, whole


def content(t, ignore, newline, blank):
    """the text inside an element"""
    return layout((t[0], None, t[2], u"", t[4]), ignore, (), ())[1] if not newline and not blank else None


def check_index(t, settings):
    with Scratch() as s:
        tree = IndexElemTree(put_text(s, "t.xml", t))
        for how, (ignore, newline, blank) in enumerate(settings):
            if ignore or newline or blank:
                tree.update(ignore, newline, blank)
            else:
                tree.update()
            where, whole = layout(t, ignore, newline, blank)
            es = list(tree.getiterator())
            ns = list(nodes(t))
            eq(len(es), len(ns), "elements")
            ueq(tree.text, whole, "text of update %d" % how)
            seen, ids = {}, {}
            for e, n, w in zip(es, ns, where):
                eq(e.tag, n[0], "tag")
                seen.setdefault(e.tag, []).append(e)
                ids.setdefault(e.tag, {})[n[1]] = e
                eq(e.get("_n"), len(seen[e.tag]), "number of an element in update %d" % how)
                eq(e.get("_alignments"), [], "alignments of an element after update %d" % how)
                if w is None:
                    holds(e.get("_ignore"), "ignored element is marked", n)
                    ueq(tree.get_elem_text(e), u"", "text of an ignored element in update %d" % how)
                else:
                    holds(not e.get("_ignore"), "element is marked as ignored without reason", n)
                    eq((e.get("_start"), e.get("_end")), w, "span of %r in update %d" % (n[:3], how))
                    ueq(tree.get_elem_text(e), whole[w[0]:w[1]], "text of an element")
                    c = content(n, ignore, newline, blank)
                    if c is not None:
                        ueq(tree.get_elem_text(e), c, "text of an element taken by itself")
            eq(set(tree.tagCountTable), set(seen), "tags in the table of counts")
            for k in seen:
                eq(len(tree.tagCountTable[k]), len(seen[k]), "entries for a tag")
                for a, b in zip(tree.tagCountTable[k], seen[k]):
                    holds(a is b, "n-th element with a tag", k)
            eq(set(tree.tagIdTable), set(ids), "tags in the table of ids")
            for k in ids:
                eq(uni(sorted(tree.tagIdTable[k])), uni(sorted(ids[k])), "ids for a tag")
                for i in ids[k]:
                    holds(tree.tagIdTable[k][i] is ids[k][i], "element with an id", (k, i))
            for e in es:
                e.get("_alignments").append(es[0])


def rand_text(r, depth=3, ids=None, tag="doc"):
    ids = ids if ids is not None else [0]
    ids[0] += 1
    i = r.choice([None, u"%s%d" % (r.choice(["a", u"\xe9", " "]), ids[0]), u"i%d" % ids[0]])
    t = lambda: r.choice([u"", u"", u" ", u"x", u" \xe9 y ", u"a b\n", u"<&>"])
    kids = [rand_text(r, depth - 1, ids, r.choice(TAGS[1:])) for _ in range(r.randint(0, 3) if depth else 0)]
    return tag, i, t(), t() if depth < 3 else u"", kids


def number(t, ids=None):
    """every element with an id of its own"""
    ids = ids if ids is not None else [0]
    ids[0] += 1
    return t[0], u"i%d" % ids[0] if t[1] is None else t[1], t[2], t[3], [number(k, ids) for k in t[4]]


def gen_index(R):
    r = R.rng
    leaf = lambda tag, x, y: (tag, None, x, y, [])
    for a, b in itertools.product([leaf("p", u"a ", u""), leaf("s", u"", u" b"), ("p", u"1", u"c", u"d", [leaf("s", u"e", u"f")])], repeat=2):
        t = ("doc", None, u"t", u"", [a, b])
        for st in ([], ["p"], ["s"], ["doc"], ["p", "s"]):
            yield t, [((), (), ()), (st, ["s"], ["p"]), ((), (), ()), (["s"], (), ()), (st, ["p", "s"], ["s"])]
    while True:
        pick = lambda: r.choice([(), r.sample(TAGS, r.randint(0, 3))])
        yield rand_text(r), [(pick(), pick(), pick()) for _ in range(r.randint(1, 3))]


# ------------------------------------------------------------- documents
def links(doc):
    return [dict((k, unicode(v)) for k, v in l.attrib.items()) for l in doc.get_alignments()]


def position(t):
    """[(tag, n, id)] in order of the document"""
    c, out = {}, []
    for n in nodes(t):
        c[n[0]] = c.get(n[0], 0) + 1
        out.append((n[0], c[n[0]], n[1]))
    return out


def link(method, a, b):
    if method == "id":
        return {"from_tag": a[0], "from_id": a[2], "to_tag": b[0], "to_id": b[2]}
    return {"from_tag": a[0], "from_n": unicode(a[1]), "to_tag": b[0], "to_n": unicode(b[1])}


def check_doc(s, t, method, align, flip, where, names):
    """align: pairs of positions in order of the document"""
    with Scratch() as sc:
        fns = put_text(sc, names[0], s), put_text(sc, names[1], t)
        doc = HitaextDoc()
        for side, fn, x in zip(("from", "to"), fns, (s, t)):
            doc.set_filename(side, fn)
            doc.init_elems(side, et.ElementTree(file=fn))
            tags = [n[0] for n in nodes(x)]
            eq(doc.get_filename(side), fn, "filename")
            eq(sorted(doc.get_elem_tags(side)), sorted(set(tags)), "tags")
            eq(sorted(doc.get_pseudo_root_tags(side)), sorted(set(k for k in tags if tags.count(k) == 1)), "possible roots")
            eq(doc.get_pseudo_root(side), x[0], "root")
            for k in set(tags):
                eq(doc.get_elem(side, k).tag, k, "element settings")
                holds(doc.get_elem_dict(side, k)[k] is doc.get_elem(side, k), "element settings by tag", k)
            doc.get_elem(side, tags[-1]).set("newline", "True")
            eq(doc.get_tags(side, "newline"), [tags[-1]], "tags with a setting")
            eq(doc.get_tags(side, "skip"), [], "tags with another setting")
        doc.validate()
        if method is not None:
            doc.set_alignment_method(method)
        eq(doc.get_alignment_method(), method, "method")
        raises(AssertionError, "unknown method", lambda: doc.set_alignment_method("x"))
        ps, pt = position(s), position(t)
        add = doc.add_id_alignment if method == "id" else doc.add_n_alignment
        for i, j in align:
            a, b = ps[i], pt[j]
            add(a[0], a[2] if method == "id" else a[1], b[0], b[2] if method == "id" else b[1])
        given = [link(method, ps[i], pt[j]) for i, j in align]
        ueq(links(doc), given, "links added")
        # written and read
        fn = sc.path(where)
        if flip:
            doc.write(fn)
        else:
            b = StringIO()
            doc.write(b)
            sc.put(where, b.getvalue())
        again = HitaextDoc(file=fn)
        ueq(links(again), given, "links read")
        eq(again.get_alignment_method(), method, "method read")
        for side, f in zip(("from", "to"), fns):
            eq(again.get_filename(side), f, "filename read")
            eq(again.get_pseudo_root(side), doc.get_pseudo_root(side), "root read")
            eq(again.get_elem_tags(side), doc.get_elem_tags(side), "tags read")
            eq(again.get_tags(side, "newline"), doc.get_tags(side, "newline"), "settings read")
        b = StringIO()
        again.write(b)
        eq(b.getvalue(), slurp(fn), "document written again")
        # alignments of the elements
        trees = again.get_doc_trees()
        again.inject_alignments(*trees)
        es = [list(x.getiterator()) for x in trees]
        at = [dict((id(e), k) for k, e in enumerate(l)) for l in es]
        for side, other, pick in ((0, 1, lambda p: p), (1, 0, lambda p: (p[1], p[0]))):
            for k, e in enumerate(es[side]):
                eq([at[other][id(x)] for x in e.get("_alignments")], [pick(p)[1] for p in align if pick(p)[0] == k],
                   "alignments of an element on side %d" % side)
        want = [link(method, ps[i], pt[j]) for i, j in sorted(align, key=lambda p: p[0])]
        again.extract_alignments(*trees)
        ueq(links(again), want, "links extracted")
        other = "n" if method == "id" else "id"
        again.set_alignment_method(other)
        again.extract_alignments(*trees)
        ueq(links(again), [link(other, ps[i], pt[j]) for i, j in sorted(align, key=lambda p: p[0])], "links by the other method")
        again.clear_alignments()
        eq(links(again), [], "links cleared")
        # texts that have moved
        for side, f in zip(("from", "to"), fns):
            name = os.path.basename(f)
            here = sc.path(os.path.join(os.path.dirname(where), name))
            rel = os.path.relpath(f, os.path.dirname(fn))
            again.set_filename(side, rel)
            eq(os.path.realpath(again.get_filename(side, search=True)), f, "text found by its relative path")
            eq(again.get_filename(side), rel, "filename without a search")
            if here != f:
                os.rename(f, here)
            again.set_filename(side, "/no/such/" + name)
            eq(os.path.realpath(again.get_filename(side, search=True)), here, "text found beside the document")
            os.remove(here)
            eq(again.get_filename(side, search=True), "/no/such/" + name, "filename of a text that is gone")


def check_new():
    d = HitaextDoc()
    eq(d.get_filename("from"), "", "filename of a new document")
    raises(AssertionError, "document without filenames", d.validate)
    d.set_filename("from", "x")
    raises(AssertionError, "document without a target", d.validate)
    d.set_filename("to", "y")
    d.validate()
    eq(d.get_alignment_method(), None, "method")
    eq(links(d), [], "links of a new document")


def gen_doc(R):
    r = R.rng
    s = ("doc", u"d", u"a", u"", [("p", u"1", u"b", u"c", [("s", u"2", u"d", u"", [])]), ("s", u"3", u"e", u"", [])])
    t = ("text", u"e", u"", u"", [("s", u"4", u"x", u"", []), ("s", u"5", u"y", u" z", [])])
    n = 0
    for al in ([], [(0, 0)], [(3, 1), (2, 1), (2, 2)], [(1, 1), (1, 2), (3, 1), (0, 0)], [(2, 2), (2, 2)]):
        for m in (None, "n", "id"):
            n += 1
            yield s, t, m, al, n % 2 == 0, ["h.xml", "a/b/h.xml", "c/h.xml"][n % 3], [("s.xml", "x/t.xml"), ("c/s.xml", "c/t.xml")][n % 2]
    while True:
        s, t = number(rand_text(r)), number(rand_text(r))
        ps, pt = len(list(nodes(s))), len(list(nodes(t)))
        al = [(r.randrange(ps), r.randrange(pt)) for _ in range(r.randint(0, 6))]
        yield (s, t, r.choice([None, "n", "id"]), al, r.random() < .5, r.choice(["h.xml", "a/h.xml", "a/b/h.xml"]),
               r.choice([("s.xml", "t.xml"), ("a/s s.xml", "t.xml"), ("b/x.xml", "a/b/y.xml")]))


def gen_new(R):
    yield ()


GROUPS = [Group("indexed texts", gen_index, check_index, "all texts of two parts out of 3, 5 sets of ignored tags, up to 5 updates; random texts", share=.5),
          Group("documents", gen_doc, check_doc, "5 alignments by 3 methods; random documents", share=.45),
          Group("new documents", gen_new, check_new, "the empty document", share=.05)]
