# -*- coding: utf-8 -*-
from scr import *

METAS = [None, u"<who>X</who>", u"<a x=\"1\">\xe9</a><b/>"]


def banks_of(s, names, n):
    out = []
    for b in names:
        gs = [{"id": "g%d" % k, "tokens": u"w%d \xe9" % k, "root": "n0", "nodes": [("n0", "a", u"w%d" % k), ("n1", "b", u"\xe9")], "edges": [("n0", "n1", None)]}
              for k in range(n)]
        s.put(b, bank_xml(gs))


def put_corpus(s, fn, banks, pairs, rels=None, meta=None):
    """pairs: [(bank, graph, bank, graph, alignments, meta data)]; the paths of the banks are relative to the corpus"""
    here = os.path.dirname(s.path(fn))
    ids = dict((b, str(k)) for k, b in enumerate(banks))
    return s.put(fn, corpus_xml([(ids[b], os.path.relpath(s.path(b), here)) for b in banks],
                                [{"from": (ids[a], "g%d" % i), "to": (ids[b], "g%d" % j), "align": al, "meta": m} for a, i, b, j, al, m in pairs], rels, meta))


def load(fn):
    return ParallelGraphCorpus(inf=fn, graph_loading=LOAD_ALL)


def look(c):
    return ([shown(gp) for gp in c], c.get_relations(), tree(c.get_meta_data()))


def some_pairs(r, banks, n, size, rels=RELS):
    out = []
    for _ in range(n):
        a, b = r.sample(banks, 2)
        al = [(x, y, r.choice(rels)) for x in ("n0", "n1") for y in ("n0", "n1") if r.random() < .4]
        out.append((a, r.randrange(size), b, r.randrange(size), al, r.choice(METAS)))
    return out


# ------------------------------------------------------------------ splitting
def check_split(n, parts, size, name, pretty, seed):
    r = random.Random(seed)
    with Scratch() as s:
        banks = ["b/x.xml", "y.xml"]
        banks_of(s, banks, 3)
        fn = put_corpus(s, name, banks, some_pairs(r, banks, n, 3), meta=r.choice(METAS))
        before = files(s)
        whole = look(load(fn))
        args = [] if parts is None else r.choice([["-p", str(parts)], ["--parts", str(parts)]])
        args += [] if size is None else ["-s", str(size)]
        fine("pgc_split", *(args + ["-f"] * pretty + [fn]))
        after = files(s)
        for f in before:
            eq(after.get(f), before[f], "file %s, which is not a part" % f)
        root, ext = os.path.splitext(name)
        step = size
        if not size:
            step = 1
            while step * (2 if parts is None else parts) < n:
                step += 1
        want = [(k, min(k + step, n)) for k in range(0, n, step)]
        names = ["%s_%04d-%04d%s" % (root, i + 1, j, ext) for i, j in want]
        eq(sorted(set(after) - set(before)), sorted(names), "files of the parts")
        for f, (i, j) in zip(names, want):
            ueq(look(load(s.path(f))), (whole[0][i:j],) + whole[1:], "graph pairs %d to %d" % (i + 1, j))


def gen_split(R):
    r = R.rng
    for n in (0, 1, 5, 6, 7):
        for parts, size in ((None, None), (1, None), (2, None), (3, None), (4, None), (6, None), (9, None), (None, 1), (None, 3), (3, 2), (2, 0), (None, 9)):
            yield n, parts, size, "c.pgc", False, n
    while True:
        yield r.randint(0, 25), r.choice([None, 1, 2, 3, 4, 7, 30]), r.choice([None, None, 0, 1, 2, 5, 12, 40]), r.choice(
            ["c.pgc", "a.b.pgc", "c", "sub/c.xml"]), r.random() < .5, r.randrange(10 ** 6)


# -------------------------------------------------------------------- joining
def check_join(numbers, names, patterns, differ, seed):
    r = random.Random(seed)
    with Scratch() as s:
        banks = ["b/x.xml", "y.xml", "z.xml"]
        banks_of(s, banks, 3)
        for k, (n, f) in enumerate(zip(numbers, names)):
            used = r.sample(banks, 2 if r.random() < .7 else 3)
            put_corpus(s, f, used, some_pairs(r, used, n, 3), RELS[:-1] if k in differ else RELS, r.choice(METAS))
        before = files(s)
        order = sorted(s.path(f) for p in patterns for f in names if fits(f, p))
        if not order:
            return
        each = [look(load(f)) for f in order]
        args = [s.path(p) for p in patterns] + r.choice([[], ["-f"]])
        if any(e[1] != each[0][1] for e in each):
            raises(ValueError, "joining corpora with different relations", run, "pgc_join", args, cwd=s.dir)
            return
        out = fine("pgc_join", *args, **{"cwd": s.dir})
        eq(files(s), before, "files that are there already")
        j = load(s.put("out", out))
        ueq(look(j), (sum([e[0] for e in each], []),) + each[0][1:], "the corpora joined")
        b = [x for gp in j for x in gp.get_banks()]
        eq(len(set(map(id, b))), len(set(x.get_file_path() for x in b)), "graph banks that are loaded once")


def fits(f, p):
    import fnmatch
    return f == p or fnmatch.fnmatchcase(f, p) and "/" not in f


def gen_join(R):
    r = R.rng
    names = ["c1.pgc", "a.pgc", "b2.pgc"]
    for pats in (["*.pgc"], ["c1.pgc", "a.pgc"], ["c1.pgc"], ["b*.pgc", "*1.pgc"], ["a.pgc", "a.pgc"]):
        for numbers in ([2, 3, 1], [0, 1, 2], [1, 0, 0]):
            for differ in ((), (1,), (0, 1, 2)):
                yield numbers, names, pats, differ, sum(numbers)
    while True:
        n = r.randint(1, 5)
        names = r.sample(["c1.pgc", "a.pgc", "b2.pgc", "d.pgc", "A.pgc", "x y.pgc"], n)
        pats = [r.choice(names + ["*.pgc", "?.pgc", "*1*"]) for _ in range(r.randint(1, 3))]
        yield [r.randint(0, 6) for _ in names], names, pats, r.choice([(), (), (), (0,), (n - 1,)]), r.randrange(10 ** 6)


# -------------------------------------------------------------------- copying
def check_copy(kinds, target, there, over, seed):
    """kinds: of the sources: corpus, junk (a file that is no corpus), missing"""
    r = random.Random(seed)
    with Scratch() as s:
        banks = ["b/x.xml", "y.xml"]
        banks_of(s, banks, 3)
        s.path("dir/sub/x")
        srcs = []
        for k, kind in enumerate(kinds):
            f = r.choice(["c%d.pgc", "d%d/c.pgc", "dir/c%d.pgc", "e%d.pgc"]) % k
            if kind == "corpus":
                put_corpus(s, f, banks, some_pairs(r, banks, r.randint(0, 4), 3), meta=r.choice(METAS))
            elif kind == "junk":
                s.put(f, r.choice(["", "<html/>x", "<a>"]))
            srcs.append(f)
        tgt = {"dir": "dir", "sub": "dir/sub", "new": "new.pgc", "old": "old.pgc", "self": srcs[0]}[target]
        if there:
            put_corpus(s, "old.pgc", banks, some_pairs(r, banks, 2, 3))
            put_corpus(s, "dir/sub/c.pgc", banks, some_pairs(r, banks, 2, 3))
            put_corpus(s, "dir/c0.pgc" if "dir/c0.pgc" not in srcs else "dir/c9.pgc", banks, some_pairs(r, banks, 2, 3))
        before = files(s)
        want = {}               # the corpora expected afterwards: those of these files before
        many = len(srcs) > 1 and not os.path.isdir(s.path(tgt))
        content = dict((f, look(load(s.path(f)))) for f in before if f not in banks and before[f].startswith("<?xml"))
        if not many:
            now = set(before)
            valid = dict((f, f) for f in content)
            for f in srcs:
                d = os.path.join(tgt, os.path.basename(f)) if os.path.isdir(s.path(tgt)) else tgt
                if f in now and f in valid and d != f and (d not in now or over):
                    now.add(d)
                    valid[d] = want[d] = valid[f]
        args = [s.path(f) for f in srcs] + [s.path(tgt)]
        code, out, err = run("pgc_cp", ["-o"] * over + args)
        eq(bool(code), many, "exit status for more than one source" if many else "exit status")
        after = files(s)
        eq(sorted(after), sorted(set(before) | set(want)), "files afterwards")
        for f in after:
            if f in want:
                ueq(look(load(s.path(f))), content[want[f]], "copy %s of %s" % (f, want[f]))
            else:
                eq(after[f], before[f], "file %s, which is not written" % f)


def gen_copy(R):
    r = R.rng
    for kinds in (["corpus"], ["junk"], ["missing"], ["corpus", "corpus"], ["junk", "corpus", "missing"]):
        for target in ("dir", "sub", "new", "old", "self"):
            for there in (False, True):
                for over in (False, True):
                    for seed in (1, 2):
                        yield kinds, target, there, over, seed
    while True:
        yield [r.choice(["corpus", "corpus", "junk", "missing"]) for _ in range(r.randint(1, 4))], r.choice(
            ["dir", "dir", "sub", "new", "old", "self"]), r.random() < .5, r.random() < .5, r.randrange(10 ** 6)


# ------------------------------------------------------------------ archiving
def check_zip(n, used, name, seed):
    r = random.Random(seed)
    with Scratch() as s:
        banks = ["b/x.xml", "y.xml", "q/r/z.xml", u"b/w.xml"]
        banks_of(s, banks, 2)
        fns, need = [], {}
        for k, u in enumerate(used):
            bs = [banks[i] for i in u]
            f = r.choice(["c%d.pgc", "d/c%d.pgc"]) % k
            # every graph bank that is listed is used (as in every corpus that is written)
            pairs = some_pairs(r, bs, n, 2)
            bs = [b for b in bs if any(b in (p[0], p[2]) for p in pairs)]
            fns.append(put_corpus(s, f, bs, pairs))
            need[f] = bs
        before = files(s)
        arch = s.path(name)
        pats = fns if r.random() < .5 else [s.path("*.pgc"), s.path("d/*.pgc")]
        fine("pgc_zip", arch, *pats)
        after = files(s)
        after.pop(os.path.relpath(arch, s.dir), None)
        eq(after, before, "files that are there already")
        z = zipfile.ZipFile(arch)
        top = os.path.splitext(os.path.basename(name))[0]
        for f, bs in need.items():
            for x in [f] + bs:
                m = top + "/" + os.path.basename(x)
                holds(m in z.namelist(), "%s is in the archive" % x, z.namelist())
                eq(z.read(m), before[x], "%s in the archive" % x)
        allowed = set(os.path.basename(x) for f in need for x in [f] + need[f])
        for m in z.namelist():
            holds(os.path.dirname(m) == top and os.path.basename(m) in allowed, "%s in the archive is a corpus or one of its banks" % m, z.namelist())
        # the corpora can be read where they are unpacked
        for f in need:
            a = look(load(s.path(f)))
            for m in z.namelist():
                s.put(os.path.join("unpacked", m), z.read(m))
            b = ParallelGraphCorpus()
            b.read(s.path("unpacked", top, os.path.basename(f)), graph_loading=LOAD_ALL, relax_gb_paths=True)
            ueq([x[1:] for x in look(b)[0]], [x[1:] for x in a[0]], "the corpus that was unpacked")


def gen_zip(R):
    r = R.rng
    import warnings
    warnings.simplefilter("ignore", UserWarning)
    for used in ([[0, 1]], [[0, 1], [2, 3]], [[0, 1, 2, 3], [1, 2]], [[0, 1], [0, 1], [3, 0]]):
        for n in (0, 1, 3):
            yield n, used, "z.zip", n
    while True:
        yield r.randint(0, 4), [r.sample(range(4), r.randint(2, 4)) for _ in range(r.randint(1, 4))], r.choice(["z.zip", "o/my.arch.zip", "z"]), r.randrange(10 ** 6)


GROUPS = [
    Group("splitting", gen_split, check_split, "5 corpora with 12 choices of parts and size; random corpora of up to 25 graph pairs", 2),
    Group("joining", gen_join, check_join, "45 choices of three corpora and patterns; random ones of up to 5 corpora of up to 6 graph pairs", 2),
    Group("copying", gen_copy, check_copy, "200 choices of sources and targets; random ones of up to 4 sources", 2),
    Group("archiving", gen_zip, check_zip, "12 archives; random ones of up to 4 corpora and 4 graph banks", 1),
]
