# -*- coding: utf-8 -*-
from scr import *


def full(e):
    """an element as plain data"""
    return (e.tag, e.text or "", e.tail or "", sorted(e.attrib.items()), [full(c) for c in e])


def parse(fn):
    return full(et.parse(fn).getroot())


# ------------------------------------------------------------- graph corpora
def check_gdir(docs, prefix, dry, loud):
    """docs: per corpus the paths of its graph banks"""
    with Scratch() as s:
        fns = []
        for k, paths in enumerate(docs):
            xml = corpus_xml([(str(i), p) for i, p in enumerate(paths)],
                             [{"from": ("0", "g"), "to": ("1", u"\xe9"), "align": [("n", "m", "equals")], "meta": u"<x>%s</x>" % escape(prefix[0])}] * k, meta=u"<m>/a/b</m>")
            fns.append(s.put("c%d.pgc" % k, xml))
        before = files(s)
        want = {}
        for fn in fns:
            t = et.parse(fn)
            for e in t.getiterator("file"):
                if e.text.startswith(prefix[0]):
                    e.text = prefix[1] + e.text[len(prefix[0]):]
            want[fn] = full(t.getroot())
        args = fns + (["-p"] + list(prefix) if prefix != ("", "") or loud else []) + ["-t"] * dry + ["-V"] * loud
        fine("pgc_chdir", *args)
        after = files(s)
        eq(sorted(after), sorted(before), "files")
        for fn in fns:
            ueq(parse(fn), parse_text(before[os.path.relpath(fn, s.dir)]) if dry else want[fn], "corpus after the change of directory")
        if dry:
            eq(after, before, "files after a dry run")


def parse_text(x):
    return full(et.fromstring(x))


def gen_gdir(R):
    r = R.rng
    ps = [("/a/b", "/x"), ("/a", ""), ("", "/x/"), ("", ""), ("../gb", "../../gb"), ("/a/b", "/a/b"), ("b", "c")]
    for p in ps:
        for dry in (False, True):
            for loud in (False, True):
                yield [["/a/b/c.xml", "/a/bb/a/b", "../gb/x", "b", "/b/a"], ["b", "/a"]], p, dry, loud
    part = lambda: "".join(r.choice(["/", "a", "b", "..", "gb", " ", "&", ".", "B"]) for _ in range(r.randint(0, 6)))
    while True:
        docs = [[part() or "a" for _ in range(r.randint(2, 5))] for _ in range(r.randint(1, 3))]
        some = r.choice(r.choice(docs))
        a = r.choice([some, some[:r.randint(0, len(some))], part()])
        b = r.choice([part(), "/x", ""])
        if (a + b).startswith("-") or b.startswith("-"):
            continue
        if any(d.startswith(a) and not (b + d[len(a):]) for x in docs for d in x):
            continue            # no path would be left
        yield docs, (a, b), r.random() < .3, r.random() < .3


# -------------------------------------------------------------- text corpora
def put_doc(s, name, paths, method, links, extra=u""):
    out = [u'<?xml version="1.0" encoding="utf-8"?>\n<hitaext><from><filename>%s</filename>%s</from><to><filename>%s</filename></to>' % (
        escape(paths[0]), extra, escape(paths[1])), u"<alignment%s>" % (u"" if method is None else u' method="%s"' % method)]
    for l in links:
        out.append(u"<link %s/>" % u" ".join(u"%s=%s" % (k, quoteattr(unicode(l[k]))) for k in sorted(l)))
    return s.put(name, u"\n".join(out + [u"</alignment></hitaext>"]))


RENDER = u'<render><font/><elements pseudo_root="d"><s ignore="True" newline="False"/></elements></render>'


def check_tdir(docs, dir, dry, loud):
    """docs: pairs of paths"""
    with Scratch() as s:
        fns = [put_doc(s, "d%d.ptc" % k, p, [None, "n", "id"][k % 3], [{"from_tag": "s", "from_n": "1", "to_tag": u"\xe9", "to_n": "2"}] * k, RENDER)
               for k, p in enumerate(docs)]
        before = files(s)
        want = []
        for fn, paths in zip(fns, docs):
            t = et.parse(fn)
            for side, p in zip(("from", "to"), paths):
                if re.match("[A-Z]:", p):
                    p = p[2:]
                t.find(side + "/filename").text = os.path.join(dir or "", re.split(r"[/\\]", p)[-1])
            want.append(full(t.getroot()))
        fine("ptc_chdir", *(fns + ([] if dir is None else ["-d", dir]) + ["-t"] * dry + ["-V"] * loud))
        after = files(s)
        eq(sorted(after), sorted(before), "files")
        if dry:
            eq(after, before, "files after a dry run")
        else:
            for fn, w in zip(fns, want):
                ueq(parse(fn), w, "text corpus after the change of directory")


import re


def gen_tdir(R):
    r = R.rng
    for dir in (None, "", "/x/y", "z", "../a/"):
        for dry in (False, True):
            yield [("/a/b.xml", "C:\\dir\\c d.xml"), ("A", "x\\y/z"), ("C:a", "c:/b")], dir, dry, not dry
            yield [("a:b", "AB:c")], dir, dry, False
    part = lambda: "".join(r.choice(["/", "a", "B", "..", "\\", " x", "&", ".", ":", "C:", "x.xml"]) for _ in range(r.randint(1, 7))) + "e"
    while True:
        yield [(part().strip(), part().strip()) for _ in range(r.randint(1, 3))], r.choice([None, "", "/x", "a b", "q/", "\\x"]), r.random() < .3, r.random() < .3


# --------------------------------------------------------------- links by id
def check_ids(docs, loud):
    """docs: (text, text, method, pairs of positions in order of the texts)"""
    with Scratch() as s:
        fns, want = [], []
        for k, (a, b, method, align) in enumerate(docs):
            paths = [put_text(s, "%s%d.xml" % (x, k), t) for x, t in zip("ab", (a, b))]
            pa, pb = position(a), position(b)
            fn = put_doc(s, "d%d.ptc" % k, paths, method, [link(method, pa[i], pb[j]) for i, j in align], RENDER)
            fns.append(fn)
            t = et.parse(fn)
            al = t.find("alignment")
            al.set("method", "id")
            al.text, al[:] = "", []
            w = full(t.getroot())
            links = [("link", "", "", sorted(link("id", pa[i], pb[j]).items()), []) for i, j in sorted(align, key=lambda p: p[0])]
            want.append((w, links))
        before = files(s)
        fine("ptc_n_to_id", *(fns + ["-V"] * loud))
        after = files(s)
        eq(sorted(after), sorted(before), "files")
        for f in after:
            if not f.endswith(".ptc"):
                eq(after[f], before[f], "texts")
        for fn, (w, links) in zip(fns, want):
            t = et.parse(fn)
            al = t.find("alignment")
            ueq([("link", "", "", sorted(l.attrib.items()), [full(x) for x in l]) for l in al], links, "links")
            al.text, al[:] = "", []
            ueq(full(t.getroot()), w, "the document apart from its links")
        # once more: nothing changes
        fine("ptc_n_to_id", *fns)
        eq(files(s), after, "files converted twice")


def gen_ids(R):
    r = R.rng
    s = ("doc", u"d", u"a", u"", [("p", u"1", u"b", u"c", [("s", u"2", u"d", u"", [])]), ("s", u"3", u"e", u"", [])])
    t = ("text", u"e", u"", u"", [("s", u"4", u"x", u"", []), ("s", u"\xe9", u"y", u" z", [])])
    for m in (None, "n", "id"):
        for al in ([], [(0, 0)], [(3, 1), (2, 1), (2, 2)], [(2, 2), (2, 2)], [(1, 1), (1, 2), (3, 1), (0, 0)]):
            yield [(s, t, m, al)], m is None
            yield [(s, t, m, al), (t, s, m, [(j, i) for i, j in al])], False
    while True:
        docs = []
        for _ in range(r.randint(1, 3)):
            a, b = number(rand_text(r)), number(rand_text(r))
            pa, pb = len(list(nodes(a))), len(list(nodes(b)))
            docs.append((a, b, r.choice([None, "n", "id"]), [(r.randrange(pa), r.randrange(pb)) for _ in range(r.randint(0, 6))]))
        yield docs, r.random() < .3


warnings.simplefilter("ignore")
GROUPS = [
    Group("paths of graph banks", gen_gdir, check_gdir, "28 pairs of prefixes and modes; random ones of up to 3 corpora of up to 5 graph banks", 1),
    Group("paths of texts", gen_tdir, check_tdir, "20 directories and modes; random ones of up to 3 documents", 1),
    Group("links by id", gen_ids, check_ids, "30 sets of links; random texts of up to 40 elements with up to 6 links", 1),
]
