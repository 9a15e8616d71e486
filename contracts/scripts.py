"""the command line tools that take corpora apart, join, copy and convert them"""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import fun, forall, arr_sort
from pyvc.spec import *
from pyvc.verify import Contract
from pyvc.graphmodel import line
from contracts.corpus import Corpus, GP, META, C, same_list, sorted_relations

S_, Z, B_ = STR.sort, z3.IntSort(), z3.BoolSort()
CORPUS = "daeso.pgc.corpus." + C


class Quiet(object):
    """a stream for messages: not followed"""

    def getattr(self, eng, st, v, name, e):
        return [(st, ModelV(self))]

    def call(self, eng, st, v, args, kw, e):
        return [(st, NONE)]


class Parser(object):
    """a parser of the command line: each argument that was added becomes a field of the result"""

    def __init__(self, con):
        self.con = con

    def getattr(self, eng, st, v, name, e):
        return [(st, ModelV(ParserMethod(self.con), name=name))]


class ParserMethod(object):
    def __init__(self, con):
        self.con = con

    def call(self, eng, st, v, args, kw, e):
        con = self.con
        if v.name == "parse_args":
            if args or kw:
                raise Unsupported("arguments of parse_args")
            out = [(st.copy(), {})]
            for dest, o in sorted(con.options.items()):
                out = [(s2, dict(f, **{dest: x})) for s, f in out for s2, x in con.argument(eng, s, dest, o)]
            res = []
            for s, f in out:
                r = s.alloc(ObjP(eng.prog.get("daeso.thirdparty.argparse").names["Namespace"], f))
                res.append((s, r))
            return res
        if v.name == "add_argument":
            names = [x.s for x in args if isinstance(x, PStr)]
            if len(names) != len(args) or not names:
                raise Unsupported("names of a command line argument")
            dest = kw.pop("dest").s if "dest" in kw else (
                [n.lstrip("-") for n in names if n.startswith("--")] or [n.lstrip("-") for n in names])[0].replace("-", "_")
            kw["flag"] = names[0].startswith("-")
            con.options[dest] = kw
            return [(st, NONE)]
        return [(st, NONE)]


def pure(name, n, *tys):
    """a function of n strings without side effects"""
    fs = [fun("lib_%s_%d" % (name.replace(".", "_"), m), *([S_] * n + [t.sort])) for m, t in enumerate(tys)]

    def call(eng, st, args, kw, e):
        if len(args) != n or kw:
            raise Unsupported("arguments of " + name)
        xs = [eng.enc(st, x, STR) for x in args]
        r = [T(t, f(*xs)) for t, f in zip(tys, fs)]
        return [(st, r[0] if len(r) == 1 else Tupl(r))]
    return {name: call}


def paths():
    m = pure("os.path.splitext", 1, STR, STR)
    for x in ("basename", "dirname", "abspath", "normpath"):
        m.update(pure("os.path." + x, 1, STR))
    m.update(pure("os.path.join", 2, STR))
    return m


class Script(Corpus):
    """running a script with any arguments that fit its command line"""
    defaults = {}           # of arguments, as documented

    def models(self, c):
        self.options = {}
        m = {"sys.stderr": ModelV(Quiet()), "sys.stdout": ModelV(Quiet())}
        for x in ("daeso.utils.cli.DaesoArgParser", "daeso.thirdparty.argparse.ArgumentParser"):
            m["new:" + x] = lambda eng, st, args, kw, e: [(st, ModelV(Parser(self)))]
        m.update(paths())
        return m

    def argument(self, eng, st, dest, o):
        """[(state, value)] of an argument of the command line"""
        act = o.get("action")
        if act is not None and act.s in ("store_true", "store_false"):
            return [(st, T(BOOL, z3.Bool("arg_" + dest)))]
        if act is not None and act.s == "append" and o.get("default", NONE) is NONE and "nargs" not in o:
            # as often as it is given
            given = st.copy()
            x = given.alloc(ListP(ety=STR, arr=z3.Const("arg_" + dest, arr_sort(STR)), ln=z3.Int("n_arg_" + dest)))
            given.assume(z3.And(z3.Int("n_arg_" + dest) >= 1, z3.Bool("given_" + dest)))
            st.assume(z3.Not(z3.Bool("given_" + dest)))
            return [(given, x), (st, NONE)]
        if act is not None and act.s != "store" or isinstance(o.get("type"), (Fn, Bound)):
            raise Unsupported("action of argument " + dest)
        num = getattr(o.get("type"), "name", None) == "int"
        ty = INT if num else STR
        dflt = o.get("default", NONE)
        if dest in self.defaults:
            eng.oblige("default-of-" + dest, st, eng.enc(st, dflt, ty) == eng.enc(st, self.defaults[dest], ty), None)
        given = st.copy()
        n = const_int(o["nargs"]) if "nargs" in o and eng.num(st, o["nargs"]) is not None else None
        if n is not None:
            # exactly so many
            x = eng.new_list(given, [T(ty, z3.Const("arg_%s_%d" % (dest, i), ty.sort)) for i in range(n)])
        elif "nargs" in o:
            x = given.alloc(ListP(ety=ty, arr=z3.Const("arg_" + dest, arr_sort(ty)), ln=z3.Int("n_arg_" + dest)))
            if getattr(o["nargs"], "s", None) == "+":
                given.assume(z3.Int("n_arg_" + dest) >= 1)
        else:
            x = T(ty, z3.Const("arg_" + dest, ty.sort))
        for f in self.given(dest, x, given):
            given.assume(f)
        out = [(given, x)]
        if o["flag"] and not (o.get("required") and z3.is_true(z3.simplify(eng.truth_term(st, o["required"])))) and (dflt is NONE or n is None and "nargs" in o):
            out.append((st, dflt))
        # any other default is one of the values that may be given
        return out

    def given(self, dest, x, st):
        """what is known of an argument that is given"""
        return []

    def setup(self, c):
        self.c = c
        self.rest(c)
        return []

    def rest(self, c):
        pass


def plain(eng, key, st, args, kw, e, cls):
    """the constructor itself, not its model"""
    h = eng.models.pop(key)
    try:
        return eng.instantiate(st, cls, args, kw, e)
    finally:
        eng.models[key] = h


def reading(con, f):
    """a corpus is read from file by f(eng, st, file name, graph loading, e)"""
    key = "new:" + CORPUS

    def new(eng, st, args, kw, e):
        if "inf" not in kw and len(args) < 4:
            return plain(eng, key, st, args, kw, e, eng.prog.get("daeso.pgc.corpus").names[C])
        if args or set(kw) - {"inf", "graph_loading"}:
            raise Unsupported("reading a corpus")
        return f(eng, st, kw["inf"], kw.get("graph_loading"), e)
    return {key: new}


def corpus_of(c, st, v):
    p = st.place(v) if isinstance(v, Ref) else None
    return p if getattr(getattr(p, "cls", None), "name", None) == C else None


class Split(Script):
    """parts of the given size - or as many parts as are asked for - that make up the corpus, in order"""
    target = "bin.pgc_split.__main__"
    props = ("C28",)

    def models(self, c):
        def read(eng, st, f, loading, e):
            eng.oblige("the-given-corpus-is-read", st, eng.enc(st, f, STR) == z3.Const("arg_filename", S_), line(e))
            return [(st, self.ref)]

        def write(eng, st, env, e):
            p = corpus_of(c, st, env["self"])
            if p is None:
                raise Unsupported("writing a corpus")
            g = st.place(self.ghost).fields
            a, n = eng.as_arr(st, p.fields["__list__"], GP)
            at, size = g["@at"].t, self.size(eng, st)
            i = z3.Int("i")
            left = self.n - at
            eng.oblige("part-number", st, n == z3.If(size < left, size, left), line(e))
            eng.oblige("part-not-empty", st, n > 0, line(e))
            eng.oblige("next-graph-pairs", st, forall(i, z3.Implies(z3.And(0 <= i, i < n), a[i] == self.a[at + i]), [a[i]]), line(e))
            for x, y in self.attrs(c, st, env["self"]):
                eng.oblige("part-" + x, st, y, line(e))
            st = st.copy()
            q = st.mutate(self.ghost)
            q.fields["@at"] = T(INT, at + n)
            q.fields["@parts"] = T(INT, g["@parts"].t + 1)
            return [(st, NONE)]
        m = Script.models(self, c)
        m.update(reading(self, read))
        m["fn:" + CORPUS + ".write"] = write
        m["range-step"] = self.size
        return m

    def size(self, eng, st):
        """the size of the parts"""
        return self.PART

    def argument(self, eng, st, dest, o):
        if dest == "size":
            return [(x, T(INT, self.SIZE)) if b else (x, NONE) for x, b in eng.split(st, self.SIZE > 0)]
        if dest == "parts":
            return [(x, T(INT, self.PARTS)) if b else (x, o.get("default", NONE)) for x, b in eng.split(st, self.GIVEN)]
        return Script.argument(self, eng, st, dest, o)

    def rest(self, c):
        self.ref, self.a, self.n, self.rel, self.meta = self.corpus(c)
        self.SIZE, self.PARTS, self.EVEN, self.GIVEN = z3.Int("arg_size"), z3.Int("arg_parts"), z3.Int("even_size"), z3.Bool("given_parts")
        p = self.PARTS
        # the size of a part if none is given: the smallest that makes no more parts than asked for
        c.assume(self.SIZE >= 0, p >= 1, z3.Implies(z3.Not(self.GIVEN), p == 2), self.EVEN >= 1)
        self.PART = z3.Int("part_size")
        c.assume((self.EVEN - 1) * p < zmax(self.n, z3.IntVal(1)), self.n <= self.EVEN * p)
        c.assume(self.PART == z3.If(self.SIZE == 0, self.EVEN, self.SIZE))
        self.ghost = c.obj("daeso.pair.Pair", {"@at": I(0), "@parts": I(0)})

    def inv(self, L):
        if L.it is None:
            return
        f = lambda V, x: V.st.place(self.ghost).fields[x].t
        size = self.size(None, None)
        yield "written-so-far", lambda V: f(V, "@at") == z3.If(V.k * size < self.n, V.k * size, self.n)
        yield "parts-so-far", lambda V: f(V, "@parts") == V.k

    def post(self, c, st, ret):
        g = st.place(self.ghost).fields
        yield "everything-written", g["@at"].t == self.n
        yield "no-more-parts-than-asked-for", z3.Implies(self.SIZE == 0, g["@parts"].t <= self.PARTS)


# ----------------------------------------------------------------- joining
LA = arr_sort(GP)
FILE, NF, NAME = z3.Const("files", arr_sort(STR)), z3.Int("n_files"), fun("c_file_name", Z, S_)
LEN, AT = fun("c_number", S_, Z), fun("c_graph_pairs", S_, LA)
ELEM = fun("c_graph_pair", S_, Z, GP.sort)
RELS, NRELS = fun("c_relations", S_, arr_sort(STR)), fun("c_n_relations", S_, Z)
METAS = fun("c_meta_data", S_, META.sort)
# the graph pairs of the first k files
TOTAL = RecFn("c_total", [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + LEN(NAME(k - 1))))
JOINED = RecFn("c_joined", [Z, Z, GP.sort], lambda F, k, p: z3.If(p >= TOTAL(k - 1), ELEM(NAME(k - 1), p - TOTAL(k - 1)), F(k - 1, p)))


class Join(Script):
    """the graph pairs of all corpora, file by file in sorted order, purged, on standard output"""
    target = "bin.pgc_join.__main__"
    retry = True
    props = ("C28",)

    def models(self, c):
        def files(eng, st, env, e):
            a, n = eng.as_arr(st, eng.listref(st, env["patterns"]), STR)
            eng.oblige("the-given-patterns", st, same_list(c, (a, n), (z3.Const("arg_file", arr_sort(STR)), z3.Int("n_arg_file"))), line(e))
            st = st.copy()
            return [(st, eng.new_symlist(st, STR, FILE, NF))]

        def read(eng, st, f, loading, e):
            x = eng.enc(st, f, STR)
            st = st.copy()
            st.assume(z3.And(LEN(x) >= 0, NRELS(x) >= 0, sorted_relations(c, RELS(x), NRELS(x)) == RELS(x)))
            return [(st, st.alloc(ObjP(eng.prog.get("daeso.pgc.corpus").names[C], {
                "__list__": eng.new_symlist(st, GP, AT(x), LEN(x)), "_relations": eng.new_symlist(st, STR, RELS(x), NRELS(x)),
                "_meta_data": T(META, METAS(x)), "_graph_loading": NONE})))]

        def purge(eng, st, env, e):
            if corpus_of(c, st, env["self"]) is None:
                raise Unsupported("purging")
            st = st.copy()
            # what is in the corpus then
            p = st.place(env["self"])
            a, n = eng.as_arr(st, p.fields["__list__"], GP)
            q = st.mutate(self.ghost)
            q.fields["@purged"] = T(INT, n)
            return [(st, NONE)]

        def write(eng, st, env, e):
            p = corpus_of(c, st, env["self"])
            if p is None:
                raise Unsupported("writing a corpus")
            a, n = eng.as_arr(st, p.fields["__list__"], GP)
            g = st.place(self.ghost).fields
            for x, y in self.joined(a, n, NF):
                eng.oblige("all-corpora-in-order: " + x, st, y, line(e))
            eng.oblige("purged", st, g["@purged"].t == n, line(e))
            eng.oblige("written-once", st, z3.Not(g["@written"].t), line(e))
            eng.oblige("relations", st, same_list(c, eng.as_arr(st, p.fields["_relations"], STR), (RELS(FILE[0]), NRELS(FILE[0]))), line(e))
            eng.oblige("meta-data", st, eng.enc(st, p.fields["_meta_data"], META) == METAS(FILE[0]), line(e))
            eng.oblige("to-standard-output", st, z3.BoolVal(isinstance(getattr(env["outf"], "model", None), Quiet)), line(e))
            st = st.copy()
            st.mutate(self.ghost).fields["@written"] = B(True)
            return [(st, NONE)]
        m = Script.models(self, c)
        m.update(reading(self, read))
        m.update({"fn:daeso.utils.opsys.multiglob": files, "fn:" + CORPUS + ".purge": purge, "fn:" + CORPUS + ".write": write})
        return m

    def rest(self, c):
        c.assume(NF >= 1, z3.Int("n_arg_file") >= 1, TOTAL(z3.IntVal(0)) == 0)
        f, i = z3.Const("f", S_), z3.Int("i")
        c.assume(forall(i, FILE[i] == NAME(i), [FILE[i]]), FILE[0] == NAME(0))
        c.assume(forall([f, i], AT(f)[i] == ELEM(f, i), [AT(f)[i]]))
        self.ghost = c.obj("daeso.pair.Pair", {"@purged": I(-1), "@written": B(False)})

    def joined(self, a, n, k):
        p = z3.Int("p")
        yield "number", n == TOTAL(k)
        yield "graph-pairs", forall(p, z3.Implies(z3.And(0 <= p, p < n), a[p] == JOINED(k, p)), [a[p]])

    def inv(self, L):
        if L.it is None:
            return
        eng = self.c.eng
        for v, x in sorted(L.head.env.items()):
            if isinstance(x, Ref) and corpus_of(self.c, L.head, x) is not None:
                for d in (0, 1):
                    for m, lab in enumerate(("number", "graph-pairs")):
                        yield "%s-of-%d-more[%s]" % (lab, d, v), lambda V, x=x, m=m, d=d: list(self.joined(
                            *(tuple(eng.as_arr(V.st, V.st.place(x).fields["__list__"], GP)) + (V.k + d,))))[m][1]

    def post(self, c, st, ret):
        yield "written", st.place(self.ghost).fields["@written"].t

    def exc(self, c, st, ex):
        if ex.cls != "ValueError":
            return None
        k = z3.Int("k")
        return [("different-relations", z3.Not(forall(k, z3.Implies(z3.And(0 <= k, k < NF), same_list(
            c, (RELS(FILE[k]), NRELS(FILE[k])), (RELS(FILE[0]), NRELS(FILE[0])))), [FILE[k]])))]


# ----------------------------------------------------------------- copying
SOURCE, NSOURCES, TARGET = fun("c_source", Z, S_), z3.Int("n_arg_source"), z3.Const("arg_target", S_)
ISDIR, SAME = fun("c_is_dir", S_, B_), fun("c_same_file", S_, S_, B_)
VALID = fun("c_valid", S_, Z, B_)            # a file that can be read as a corpus, after so many copies were made
EXISTS0, OVER = fun("c_exists", S_, B_), z3.Bool("arg_overwrite")
JOIN, BASE = fun("lib_os_path_join_0", S_, S_, S_), fun("lib_os_path_basename_0", S_, S_)
dest = lambda k: z3.If(ISDIR(TARGET), JOIN(TARGET, BASE(SOURCE(k))), TARGET)
# the files that exist, what they were copied from and the number of copies, when k sources have been dealt with
EXISTS = RecFn("c_exists_then", [Z, S_, B_], lambda F, k, x: z3.If(k <= 0, EXISTS0(x), z3.Or(F(k - 1, x), z3.And(COPIED(k - 1), dest(k - 1) == x))))
COPIES = RecFn("c_copies", [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + z3.If(COPIED(k - 1), 1, 0)))
ORIGIN = RecFn("c_origin", [Z, S_, S_], lambda F, k, x: z3.If(k <= 0, x, z3.If(z3.And(COPIED(k - 1), dest(k - 1) == x), SOURCE(k - 1), F(k - 1, x))))
COPIED = fun("c_copied", Z, B_)
copied = lambda k: z3.And(EXISTS(k, SOURCE(k)), VALID(SOURCE(k), COPIES(k)), z3.Implies(EXISTS(k, dest(k)), z3.And(OVER, z3.Not(SAME(SOURCE(k), dest(k))))))
DISK = Ty("arr", STR, BOOL)
FROM = Ty("arr", STR, STR)


class Copy(Script):
    """every valid source is copied; nothing is copied onto itself, or over another file unless that was asked for"""
    target = "bin.pgc_cp.__main__"
    props = ("C28",)

    def models(self, c):
        def read(eng, st, f, loading, e):
            x = eng.enc(st, f, STR)
            n = st.place(self.ghost).fields["@copies"].t
            return [(s, ModelV(Loaded(self), file=x, when=n) if b else Exc("Exception", None, line(e))) for s, b in eng.split(st, VALID(x, n))]

        def exists(eng, st, args, kw, e):
            return [(st, B(st.place(self.ghost).fields["@exists"].t[eng.enc(st, args[0], STR)]))]

        def same(eng, st, args, kw, e):
            a, b = (eng.enc(st, x, STR) for x in args)
            ex = st.place(self.ghost).fields["@exists"].t
            return [(s, B(SAME(a, b)) if ok else Exc("OSError", None, line(e))) for s, ok in eng.split(st, z3.And(ex[a], ex[b]))]

        def isdir(eng, st, args, kw, e):
            return [(st, B(ISDIR(eng.enc(st, args[0], STR))))]
        m = Script.models(self, c)
        m.update(reading(self, read))
        m.update({"os.path.exists": exists, "os.path.samefile": same, "os.path.isdir": isdir})
        return m

    def given(self, dest, x, st):
        if dest == "source":
            i = z3.Int("i")
            a = st.place(x).arr
            return [st.place(x).ln >= 1, forall(i, a[i] == SOURCE(i), [a[i]])]
        return []

    def rest(self, c):
        k = z3.Int("k")
        c.assume(NSOURCES >= 1, forall(k, COPIED(k) == copied(k), [COPIED(k)]), forall(k, COPIED(k) == copied(k), [SOURCE(k)]))
        self.exists0 = c.term(DISK, "exists0")
        self.from0 = c.term(FROM, "from0")
        x = z3.Const("x", S_)
        c.assume(forall(x, self.exists0.t[x] == EXISTS0(x), [self.exists0.t[x]]), forall(x, self.from0.t[x] == x, [self.from0.t[x]]))
        self.ghost = c.obj("daeso.pair.Pair", {"@exists": self.exists0, "@copies": I(0), "@from": self.from0})

    def state(self, eng, st, k):
        g = st.place(self.ghost).fields
        x = z3.Const("x", S_)
        yield "copies", eng.num(st, g["@copies"]).t == COPIES(k)
        yield "files-that-exist", forall(x, g["@exists"].t[x] == EXISTS(k, x), [g["@exists"].t[x]])
        yield "copies-of-the-sources", forall(x, g["@from"].t[x] == ORIGIN(k, x), [g["@from"].t[x]])

    def inv(self, L):
        if L.it is None:
            return
        for m, lab in enumerate(("copies", "files-that-exist", "copies-of-the-sources")):
            yield lab, lambda V, m=m: list(self.state(self.c.eng, V.st, V.k))[m][1]

    def post(self, c, st, ret):
        for x in self.state(c.eng, st, NSOURCES):
            yield x
        yield "one-source-or-a-directory", z3.Or(NSOURCES == 1, ISDIR(TARGET))

    def exc(self, c, st, ex):
        if ex.cls != "SystemExit":
            return None
        return [("too-many-sources", z3.And(NSOURCES > 1, z3.Not(ISDIR(TARGET))))] + list(self.state(c.eng, st, z3.IntVal(0)))


class Loaded(object):
    """a corpus read from a file"""

    def __init__(self, con):
        self.con = con

    def getattr(self, eng, st, v, name, e):
        if name != "write":
            raise Unsupported("attribute %s of a corpus" % name)
        return [(st, ModelV(Write(self.con), of=v))]


class Write(object):
    def __init__(self, con):
        self.con = con

    def call(self, eng, st, v, args, kw, e):
        if len(args) + ("outf" in kw) != 1 or set(kw) - {"outf", "encoding", "pprint", "abs_path"}:
            raise Unsupported("writing a corpus")
        x = eng.enc(st, args[0] if args else kw["outf"], STR)
        g = st.place(self.con.ghost).fields
        eng.oblige("copied-as-read", st, v.of.when == g["@copies"].t, line(e))
        st = st.copy()
        q = st.mutate(self.con.ghost).fields
        q["@copies"] = T(INT, q["@copies"].t + 1)
        q["@exists"] = T(DISK, z3.Store(q["@exists"].t, x, z3.BoolVal(True)))
        q["@from"] = T(FROM, z3.Store(q["@from"].t, x, v.of.file))
        return [(st, NONE)]


# ----------------------------------------------------------------- conversion
FNAME, NFILES = fun("c_corpus_file", Z, S_), z3.Int("n_arg_corpus")
POS = fun("c_position", S_, Z)
TEST = z3.Bool("arg_test")


def files_given(a, n):
    """different files"""
    i, f = z3.Int("i"), z3.Const("f", S_)
    return [forall(f, z3.Implies(z3.And(0 <= POS(f), POS(f) < n), FNAME(POS(f)) == f), [POS(f)]), n >= 1, n == NFILES, forall(i, a[i] == FNAME(i), [a[i]]), forall(i, z3.Implies(z3.And(0 <= i, i < n), POS(FNAME(i)) == i), [FNAME(i)])]


class Convert(Script):
    """every file is read, changed and written back"""
    props = ("C29",)
    dry = True

    def given(self, dest, x, st):
        if dest == "corpus":
            return files_given(st.place(x).arr, st.place(x).ln)
        return []

    def rest(self, c):
        self.test = TEST if self.dry else z3.BoolVal(False)
        x = z3.Const("x", S_)
        self.disk0 = z3.Const("written0", DISK.sort)
        c.assume(forall(x, z3.Not(self.disk0[x]), [self.disk0[x]]))
        f = dict(self.ghosts(c), **{"@written": T(DISK, self.disk0)})
        self.ghost = c.obj("daeso.pair.Pair", f)

    def now(self, st, f):
        return st.place(self.ghost).fields[f].t

    def put(self, st, f, x, v):
        q = st.mutate(self.ghost).fields
        q[f] = T(q[f].ty, z3.Store(q[f].t, x, v))

    def wrote(self, eng, st, file, name, line):
        """the file is written"""
        eng.oblige("the-file-itself", st, name == file, line)
        eng.oblige("no-dry-run", st, z3.Not(self.test), line)
        for l, x in self.finished(st, file):
            eng.oblige(l, st, x, line)
        st = st.copy()
        self.put(st, "@written", file, z3.BoolVal(True))
        return [(st, NONE)]

    def written(self, st, k):
        x, w = z3.Const("x", S_), self.now(st, "@written")
        i = z3.Int("i")
        yield "files-written", forall(i, z3.Implies(z3.And(0 <= i, i < NFILES), w[FNAME(i)] == z3.And(i < k, z3.Not(self.test))), [FNAME(i)])

    def inv(self, L):
        if L.it is None:
            return
        for m, (lab, f) in enumerate(self.steps(L)):
            yield lab, f

    def steps(self, L):
        yield "files-written", lambda V: list(self.written(V.st, V.k))[0][1]

    def post(self, c, st, ret):
        for x in self.written(st, NFILES):
            yield x


FILE_EL = OP("FileElement")
EL_OF, N_EL = fun("c_file_element", S_, Z, FILE_EL.sort), fun("c_n_file_elements", S_, Z)
OWNER, INDEX = fun("c_file_of_element", FILE_EL.sort, S_), fun("c_index_of_element", FILE_EL.sort, Z)
TEXT0 = fun("c_text_of_element", FILE_EL.sort, S_)
TEXTS = Ty("arr", FILE_EL, STR)


class ChangeDir(Convert):
    """the prefix of the paths that start with it is replaced; other paths stay; nothing is written in a dry run"""
    target = "bin.pgc_chdir.__main__"

    def models(self, c):
        m = Script.models(self, c)

        def tree(eng, st, args, kw, e):
            if args or set(kw) != {"file"}:
                raise Unsupported("reading an element tree")
            return [(st, ModelV(Tree(self), file=eng.enc(st, kw["file"], STR)))]

        def text(eng, st, v, name, e):
            if name != "text":
                raise Unsupported("attribute %s of an element" % name)
            return [(st, T(STR, self.now(st, "@text")[v.t]))]

        def set_text(eng, st, v, name, x, e):
            if name != "text":
                raise Unsupported("attribute %s of an element" % name)
            st = st.copy()
            self.put(st, "@text", v.t, eng.enc(st, x, STR))
            return [(st, None)]

        def write(eng, st, env, e):
            t = env["etree"]
            if not isinstance(getattr(t, "model", None), Tree):
                raise Unsupported("writing an element tree")
            return self.wrote(eng, st, t.file, eng.enc(st, env["file"], STR), line(e))

        def tostring(eng, st, args, kw, e):
            return [(st, T(STR, z3.Const(fresh_name("shown"), S_)))]
        for x in ("xml.etree.cElementTree", "xml.etree.ElementTree"):
            m[x + ".ElementTree"] = tree
            m[x + ".tostring"] = tostring
        m.update({"attr:" + FILE_EL.key: text, "setattr:" + FILE_EL.key: set_text, "fn:daeso.utils.etree.write": write})
        return m

    def ghosts(self, c):
        f, i, x = z3.Const("f", S_), z3.Int("i"), z3.Const("x", FILE_EL.sort)
        old = z3.Const("texts0", TEXTS.sort)
        c.assume(forall([f, i], z3.And(OWNER(EL_OF(f, i)) == f, INDEX(EL_OF(f, i)) == i), [EL_OF(f, i)]), forall(f, N_EL(f) >= 0, [N_EL(f)]))
        c.assume(forall(x, old[x] == TEXT0(x), [old[x]]))
        # an element is identified by its file and its position there
        c.assume(forall(x, x == EL_OF(OWNER(x), INDEX(x)), [INDEX(x)]))
        return {"@text": T(TEXTS, old)}

    def new_text(self, x):
        a, b = (T(STR, z3.Const("arg_path_prefix_pair_%d" % m, S_)) for m in (0, 1))
        eng = self.c.eng
        st = self.c.st
        t = T(STR, TEXT0(x))
        (_, starts), = eng.call_str(st, t, "startswith", [a], {}, None)
        (_, rest), = eng.getslice(st, t, SliceV(T(INT, eng.zlen(st, a)), None, None), None)
        (_, new), = eng.binop(st, "Add", b, rest, None)
        return z3.If(eng.truth_term(st, starts), new.t, t.t)

    def texts(self, st, done):
        x, t = z3.Const("x", FILE_EL.sort), self.now(st, "@text")
        return forall(x, z3.Implies(z3.And(0 <= POS(OWNER(x)), POS(OWNER(x)) < NFILES, 0 <= INDEX(x), INDEX(x) < N_EL(OWNER(x))), t[x] == z3.If(done(x), self.new_text(x), TEXT0(x))), [t[x]])

    def finished(self, st, file):
        x, t = z3.Const("x", FILE_EL.sort), self.now(st, "@text")
        yield "all-paths-are-changed", forall(x, z3.Implies(z3.And(OWNER(x) == file, 0 <= INDEX(x), INDEX(x) < N_EL(file)), t[x] == self.new_text(x)), [t[x]])

    def steps(self, L):
        if L.it.kind == "file elements":
            f = L.it.src.file
            yield "paths-changed", lambda V: self.texts(V.st, lambda x: z3.Or(POS(OWNER(x)) < POS(f), z3.And(OWNER(x) == f, INDEX(x) < V.k)))
            return
        for x in Convert.steps(self, L):
            yield x
        yield "paths-changed", lambda V: self.texts(V.st, lambda x: POS(OWNER(x)) < V.k)


class Tree(object):
    def __init__(self, con):
        self.con = con

    def getattr(self, eng, st, v, name, e):
        return [(st, ModelV(TreeMethod(), name=name, of=v))]


class TreeMethod(object):
    def call(self, eng, st, v, args, kw, e):
        what = getattr(args[0], "s", None) if len(args) == 1 and not kw else None
        if v.name in ("findall", "iterfind") and what in ("//file", ".//file") or v.name in ("iter", "getiterator") and what == "file":
            return [(st, ModelV(FileElements(), file=v.of.file))]
        raise Unsupported("method %s of an element tree" % v.name)


class FileElements(object):
    has_iter = True

    def iterate(self, eng, st, v):
        return [(st, It(N_EL(v.file), lambda k: T(FILE_EL, EL_OF(v.file, k)), None, v, "file elements", key=lambda k: EL_OF(v.file, k)))]


SIDES = ("from", "to")
NAME0 = {s: fun("c_%s_filename" % s, S_, S_) for s in SIDES}     # of the text, in a document
LETTERS = fun("c_in_uppercase", S_, B_)


class Uppercase(object):
    """the upper case letters"""

    def contains(self, eng, st, v, x):
        return [(st, LETTERS(eng.enc(st, x, STR)))]


def documents(con):
    def doc(eng, st, args, kw, e):
        if args or set(kw) != {"file"}:
            raise Unsupported("reading a text corpus")
        return [(st, ModelV(Doc(con), file=eng.enc(st, kw["file"], STR)))]
    return {"new:daeso.ptc.document.HitaextDoc": doc}


class Doc(object):
    """a document, with what can be asked of it"""

    def __init__(self, con):
        self.con = con

    def getattr(self, eng, st, v, name, e):
        return [(st, ModelV(DocMethod(self.con), name=name, of=v))]


class DocMethod(Doc):
    def getattr(self, eng, st, v, name, e):
        if v.name != "alignment":
            raise Unsupported("attribute %s of %s" % (name, v.name))
        return [(st, ModelV(DocMethod(self.con), name=name, of=v.of))]

    def call(self, eng, st, v, args, kw, e):
        if kw and v.name != "write" or set(kw) - {"encoding", "file"}:
            raise Unsupported("arguments of " + v.name)
        if v.name == "write":
            return self.con.wrote(eng, st, v.of.file, eng.enc(st, args[0] if args else kw["file"], STR), line(e))
        return getattr(self.con, "doc_" + v.name)(eng, st, v.of, args, line(e))


class TextDir(Convert):
    """the texts are in the given directory; nothing is written in a dry run"""
    target = "bin.ptc_chdir.__main__"
    defaults = {"dir": PStr("")}

    def models(self, c):
        m = Script.models(self, c)
        m.update(documents(self))
        m["string.uppercase"] = m["string.ascii_uppercase"] = ModelV(Uppercase())
        return m

    def ghosts(self, c):
        f = z3.Const("f", S_)
        g = {}
        for s in SIDES:
            a = z3.Const("filenames_" + s, FROM.sort)
            c.assume(forall(f, a[f] == NAME0[s](f), [a[f]]), forall(f, c.eng.zlen(c.st, T(STR, NAME0[s](f))) > 0, [NAME0[s](f)]))
            g["@" + s] = T(FROM, a)
        return g

    def side(self, v):
        x = getattr(v, "s", None)
        if x not in SIDES:
            raise Unsupported("which side")
        return "@" + x

    def doc_get_filename(self, eng, st, doc, args, at):
        return [(st, T(STR, self.now(st, self.side(args[0]))[doc.file]))]

    def doc_set_filename(self, eng, st, doc, args, at):
        st = st.copy()
        self.put(st, self.side(args[0]), doc.file, eng.enc(st, args[1], STR))
        return [(st, NONE)]

    def moved(self, t):
        """the path in the new directory"""
        eng, st = self.c.eng, self.c.st
        one = lambda r: r[0][1]
        cut = lambda v, a, b: one(eng.getslice(st, v, SliceV(I(a), b and I(b), None), None))
        v = T(STR, t)
        # a drive letter, if any, is not part of the path
        drive = z3.And(LETTERS(cut(v, 0, 1).t), eng.enc(st, cut(v, 1, 2), STR) == eng.enc(st, PStr(":"), STR))
        v = T(STR, z3.If(drive, cut(v, 2, None).t, t))
        v = one(eng.call_str(st, v, "replace", [PStr("\\"), PStr("/")], {}, None))
        return JOIN(z3.Const("arg_dir", S_), BASE(v.t))

    def finished(self, st, file):
        for s in SIDES:
            yield "%s-is-moved" % s, self.now(st, "@" + s)[file] == self.moved(NAME0[s](file))

    def names(self, st, k):
        i = z3.Int("i")
        for s in SIDES:
            a = self.now(st, "@" + s)
            yield s, forall(i, z3.Implies(z3.And(k <= i, i < NFILES), a[FNAME(i)] == NAME0[s](FNAME(i))), [FNAME(i)])

    def steps(self, L):
        for x in Convert.steps(self, L):
            yield x
        for m, s in enumerate(SIDES):
            yield "later-documents-unchanged-" + s, lambda V, m=m: list(self.names(V.st, V.k))[m][1]


class NToId(Convert):
    """the alignments are read as they are, and written by the ids of what they align"""
    target = "bin.ptc_n_to_id.__main__"
    dry = False
    # how far a document is: read, texts indexed (from, to), alignments in the texts, method changed, alignments by id
    STAGES = ("@from", "@to", "@injected", "@by_id", "@extracted")

    def models(self, c):
        m = Script.models(self, c)
        m.update(documents(self))
        return m

    def ghosts(self, c):
        x = z3.Const("x", S_)
        self.stage0 = z3.Const("not_yet", DISK.sort)
        c.assume(forall(x, z3.Not(self.stage0[x]), [self.stage0[x]]))
        return {s: T(DISK, self.stage0) for s in self.STAGES}

    def doc_get_doc_tree(self, eng, st, doc, args, at):
        x = getattr(args[0], "s", None)
        if x not in SIDES:
            raise Unsupported("which side")
        return [(st, ModelV(TextTree(self), side=x, file=doc.file))]

    def trees(self, eng, st, doc, args, at):
        t = [x for x in args if isinstance(getattr(x, "model", None), TextTree)]
        if len(args) != 2 or len(t) != 2:
            raise Unsupported("texts of an alignment")
        eng.oblige("the-texts-of-the-document", st, z3.And(z3.BoolVal([x.side for x in t] == list(SIDES)), *[x.file == doc.file for x in t]), at)

    def doc_inject_alignments(self, eng, st, doc, args, at):
        self.trees(eng, st, doc, args, at)
        f = doc.file
        eng.oblige("texts-are-indexed", st, z3.And(self.now(st, "@from")[f], self.now(st, "@to")[f]), at)
        eng.oblige("read-as-they-are", st, z3.Not(self.now(st, "@by_id")[f]), at)
        eng.oblige("read-once", st, z3.Not(self.now(st, "@injected")[f]), at)
        st = st.copy()
        self.put(st, "@injected", f, z3.BoolVal(True))
        return [(st, NONE)]

    def doc_extract_alignments(self, eng, st, doc, args, at):
        self.trees(eng, st, doc, args, at)
        eng.oblige("alignments-are-in-the-texts", st, self.now(st, "@injected")[doc.file], at)
        eng.oblige("by-id", st, self.now(st, "@by_id")[doc.file], at)
        st = st.copy()
        self.put(st, "@extracted", doc.file, z3.BoolVal(True))
        return [(st, NONE)]

    def method(self, eng, st, doc, method, at):
        eng.oblige("method-is-id", st, eng.enc(st, method, STR) == eng.enc(st, PStr("id"), STR), at)
        st = st.copy()
        self.put(st, "@by_id", doc.file, z3.BoolVal(True))
        return [(st, NONE)]

    def doc_set_alignment_method(self, eng, st, doc, args, at):
        return self.method(eng, st, doc, args[0], at)

    def doc_set(self, eng, st, doc, args, at):
        eng.oblige("only-the-method-is-set", st, eng.enc(st, args[0], STR) == eng.enc(st, PStr("method"), STR), at)
        return self.method(eng, st, doc, args[1], at)

    def finished(self, st, file):
        yield "alignments-by-id", self.now(st, "@extracted")[file]

    def stage(self, st, k):
        i = z3.Int("i")
        for s in self.STAGES:
            a = self.now(st, s)
            yield s, forall(i, z3.Implies(z3.And(k <= i, i < NFILES), z3.Not(a[FNAME(i)])), [FNAME(i)])

    def steps(self, L):
        for x in Convert.steps(self, L):
            yield x
        for m, s in enumerate(self.STAGES):
            yield "later-documents" + s, lambda V, m=m: list(self.stage(V.st, V.k))[m][1]


class TextTree(Doc):
    def getattr(self, eng, st, v, name, e):
        if name != "update":
            raise Unsupported("attribute %s of a text" % name)
        return [(st, ModelV(Update(self.con), of=v))]


class Update(Doc):
    def call(self, eng, st, v, args, kw, e):
        if args or kw:
            raise Unsupported("arguments of update")
        st = st.copy()
        self.con.put(st, "@" + v.of.side, v.of.file, z3.BoolVal(True))
        return [(st, NONE)]


# ----------------------------------------------------------------- options
class Tool(Script):
    """the options of a tool reach the function that does the work"""
    props = ("C30",)
    works = {}              # the function -> its parameters: what they are

    def models(self, c):
        m = Script.models(self, c)
        for f in self.works:
            m["fn:" + f] = lambda eng, st, env, e, f=f: self.work(eng, st, f, env, e)
        m["glob.glob"] = self.glob
        m["daeso.utils.opsys.glob"] = self.glob
        m["sys.exit"] = lambda eng, st, args, kw, e: eng.bi_exit(st, args, kw, e)
        return m

    def glob(self, eng, st, args, kw, e):
        eng.oblige("the-given-pattern", st, eng.enc(st, args[0], STR) == z3.Const("arg_pattern", S_), line(e))
        st = st.copy()
        return [(st, eng.new_symlist(st, STR, FILE, NF))]

    def rest(self, c):
        c.assume(NF >= 0)
        self.ghost = c.obj("daeso.pair.Pair", {"@" + f: I(0) for f in self.works})

    def work(self, eng, st, f, env, e):
        for p, want in sorted(self.works[f].items()):
            if want is not None:
                for l, x in self.same_value(eng, st, env[p], want(self)):
                    eng.oblige("%s%s" % (p, l), st, x, line(e))
        st = st.copy()
        q = st.mutate(self.ghost).fields
        q["@" + f] = T(INT, eng.num(st, q["@" + f]).t + 1)
        return [(st, self.result(eng, st, f, env))]

    def same_value(self, eng, st, v, want):
        if isinstance(want, z3.ExprRef):
            ty = {S_: STR, Z: INT, B_: BOOL}[want.sort()]
            if ty == BOOL:
                yield "", eng.truth_term(st, v) == want
                return
            if isinstance(v, NoneV):
                yield "", z3.BoolVal(False)
                return
            yield "", eng.enc(st, v, ty) == want
            return
        for x in want(eng, st, v):
            yield x

    def result(self, eng, st, f, env):
        return ModelV(Quiet())

    def times(self, f):
        return z3.IntVal(1)

    def post(self, c, st, ret):
        for f in sorted(self.works):
            n = c.eng.num(st, st.place(self.ghost).fields["@" + f]).t
            yield "done:" + f.rsplit(".", 1)[1], n == self.times(f)


def arg(name, sort=S_):
    return lambda con: z3.Const("arg_" + name, sort)


flag = lambda name: arg(name, B_)


def listed(name, ty=STR):
    """the list given as an argument"""
    def same(eng, st, v):
        r = eng.listref(st, v)
        if r is None:
            yield "", z3.BoolVal(False)
            return
        a, n = eng.as_arr(st, r, ty)
        i = z3.Int("i")
        b, m = z3.Const("arg_" + name, arr_sort(ty)), z3.Int("n_arg_" + name)
        yield "-number", n == m
        yield "", forall(i, z3.Implies(z3.And(0 <= i, i < n), a[i] == b[i]), [a[i]])
    return lambda con: same


def found(con):
    """the files that match the pattern"""
    def same(eng, st, v):
        a, n = eng.as_arr(st, eng.listref(st, v), STR)
        i = z3.Int("i")
        yield "-number", n == NF
        yield "", forall(i, z3.Implies(z3.And(0 <= i, i < n), a[i] == FILE[i]), [a[i]])
    return same


with_all = lambda name: lambda con: z3.Or(z3.Bool("arg_with_all"), z3.Bool("arg_" + name))


class Table(object):
    """a table of statistics"""

    def __init__(self, con):
        self.con = con

    def getattr(self, eng, st, v, name, e):
        if name != "write":
            raise Unsupported("attribute %s of a table" % name)
        return [(st, ModelV(WriteTable(self.con), name=v.name))]


class WriteTable(Table):
    def call(self, eng, st, v, args, kw, e):
        if args or set(kw) - {"legenda"}:
            raise Unsupported("writing a table")
        x = eng.truth_term(st, kw["legenda"]) if "legenda" in kw else z3.BoolVal(False)
        eng.oblige("legenda", st, x == z3.Bool("arg_legenda"), line(e))
        st = st.copy()
        q = st.mutate(self.con.ghost).fields
        q["@write_" + v.name] = T(INT, eng.num(st, q["@write_" + v.name]).t + 1)
        return [(st, NONE)]


class Stats(Tool):
    tables = ("pgc_table", "gb_table")
    target = "bin.pgc_stats.__main__"
    works = {"daeso.pgc.pgcstats.pgc_stats": dict(
        files=lambda con: found(con), threshold=arg("threshold", Z),
        **{x: with_all(x) for x in ("with_empty_nodes", "with_failed_parses", "with_punc", "with_unaligned_roots", "with_unaligned_graphs")})}
    defaults = {"threshold": I(0)}

    def rest(self, c):
        Tool.rest(self, c)
        for t in self.tables:
            c.st.mutate(self.ghost).fields["@write_" + t] = I(0)

    def result(self, eng, st, f, env):
        r = [ModelV(Table(self), name=t) for t in self.tables]
        return Tupl(r) if len(r) > 1 else r[0]

    def post(self, c, st, ret):
        for x in Tool.post(self, c, st, ret):
            yield x
        for t in self.tables:
            yield "written:" + t, c.eng.num(st, st.place(self.ghost).fields["@write_" + t]).t == 1

    def exc(self, c, st, ex):
        return [("no-files", NF == 0)] if ex.cls == "SystemExit" else None


class BankStats(Stats):
    tables = ("gb_table",)
    target = "bin.gb_stats.__main__"
    works = {"daeso.gb.gbstats.gb_stats": dict(
        files=lambda con: found(con), threshold=arg("threshold", Z), format=arg("format"),
        **{x: with_all(x) for x in ("with_empty_nodes", "with_failed_parses", "with_punc")})}
    defaults = {"threshold": I(0), "format": PStr("alpino")}


class TextDiff(Tool):
    target = "bin.ptc_diff.__main__"
    works = {"daeso.ptc.diff.print_diff": {x: arg(x) for x in ("true_corpus", "pred_corpus", "tag", "encoding")}}
    defaults = {"tag": PStr("s"), "encoding": PStr("utf-8")}


def paired(a, b):
    """a list of pairs from two lists"""
    def same(eng, st, v):
        ty = TUP(STR, STR)
        (st2, r), = eng.to_list(st, v)
        x, n = eng.as_arr(st2, r, ty)
        for f in st2.pc[len(st.pc):]:
            # what is known of the elements
            st.assume(f)
        i = z3.Int("i")
        yield "-number", n == z3.Int("n_arg_" + a)
        yield "", forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(*[ty.get(m, x[i]) == z3.Const("arg_" + y, arr_sort(STR))[i] for m, y in enumerate((a, b))])), [x[i]])
    return lambda con: same


class TextEval(Tool):
    """both lists of corpora are given (their option is not optional, although the parser says so)"""
    target = "bin.ptc_eval.__main__"
    works = {"daeso.ptc.evaluate.eval_alignment": {"filename_pairs": paired("true_corpora", "pred_corpora"), "tag": arg("tag")}}
    defaults = {"tag": PStr("s")}

    def argument(self, eng, st, dest, o):
        return Tool.argument(self, eng, st, dest, dict(o, required=I(1)) if dest.endswith("corpora") else o)

    def exc(self, c, st, ex):
        return [("different-numbers", z3.Int("n_arg_true_corpora") != z3.Int("n_arg_pred_corpora"))] if ex.cls == "AssertionError" else None


CORPUS_FILE = OP("CorpusFile")
READ = fun("c_corpus_read", S_, CORPUS_FILE.sort)


def corpus_read(name):
    def same(eng, st, v):
        yield "", z3.BoolVal(isinstance(v, T) and v.ty == CORPUS_FILE) if not (isinstance(v, T) and v.ty == CORPUS_FILE) else v.t == READ(z3.Const("arg_" + name, S_))
    return lambda con: same


def optional(name):
    """the list, if it is given"""
    def same(eng, st, v):
        if isinstance(v, NoneV):
            yield "", z3.Not(z3.Bool("given_" + name))
            return
        yield "-given", z3.Bool("given_" + name)
        for x in listed(name)(None)(eng, st, v):
            yield x
    return lambda con: same


class Evaluation(object):
    """an evaluation of alignments"""

    def __init__(self, con):
        self.con = con

    def getattr(self, eng, st, v, name, e):
        return [(st, ModelV(EvalStep(self.con), name=name))]


class EvalStep(Evaluation):
    ORDER = ("add", "run_eval", "write")

    def call(self, eng, st, v, args, kw, e):
        if v.name not in self.ORDER or kw:
            raise Unsupported("evaluation step " + v.name)
        n = eng.num(st, st.place(self.con.ghost).fields["@stage"]).t
        eng.oblige("stage-of-the-evaluation", st, n == self.ORDER.index(v.name), line(e))
        if v.name == "add":
            for x, y in zip(args, ("corpus1", "corpus2")):
                for l, t in corpus_read(y)(None)(eng, st, x):
                    eng.oblige("evaluated-" + y, st, t, line(e))
        st = st.copy()
        st.mutate(self.con.ghost).fields["@stage"] = T(INT, n + 1)
        return [(st, NONE)]


class GraphDiff(Tool):
    target = "bin.pgc_diff.__main__"
    works = {"daeso.pgc.diff.pgc_diff": {
        "corpus1": corpus_read("corpus1"), "corpus2": corpus_read("corpus2"), "corpus_name1": arg("corpus1"), "corpus_name2": arg("corpus2"),
        "annot1": arg("first_annotator"), "annot2": arg("second_annotator"), "show_comments": flag("with_comments"),
        "show_ident": flag("with_ident"), "relations": optional("relations")}}

    def models(self, c):
        m = Tool.models(self, c)
        m.update(reading(self, lambda eng, st, f, loading, e: [(st, T(CORPUS_FILE, READ(eng.enc(st, f, STR))))]))
        m["new:daeso.pgc.evaluate.AlignEval"] = lambda eng, st, args, kw, e: [(st, ModelV(Evaluation(self)))]
        return m

    def rest(self, c):
        Tool.rest(self, c)
        c.st.mutate(self.ghost).fields["@stage"] = I(0)

    def argument(self, eng, st, dest, o):
        r = Tool.argument(self, eng, st, dest, o)
        if dest != "relations":
            return r
        for s, x in r:
            s.assume(z3.Not(z3.Bool("given_relations")) if x is NONE else z3.Bool("given_relations"))
        return r

    def post(self, c, st, ret):
        for x in Tool.post(self, c, st, ret):
            yield x
        yield "evaluated", c.eng.num(st, st.place(self.ghost).fields["@stage"]).t == z3.If(z3.Bool("arg_evaluate"), 3, 0)


def maybe(name, sort=S_):
    """the value, if it is given"""
    def same(eng, st, v):
        if isinstance(v, NoneV):
            yield "", z3.Not(z3.Bool("given_" + name))
            return
        yield "-given", z3.Bool("given_" + name)
        yield "", eng.enc(st, v, STR) == z3.Const("arg_" + name, sort)
    return lambda con: same


class Agreement(Tool):
    target = "bin.pgc_agreement.__main__"
    works = {"daeso.pgc.agreement.run_eval": {
        "corpus_fns": listed("corpus_fns"), "annotators": optional("annotators"), "pickle_fn": maybe("pickle_fn"), "words_only": flag("words_only")}}

    def argument(self, eng, st, dest, o):
        r = Tool.argument(self, eng, st, dest, o)
        if dest == "pickle_fn":
            for s, x in r:
                s.assume(z3.Not(z3.Bool("given_" + dest)) if x is NONE else z3.Bool("given_" + dest))
        return r


class FromText(Tool):
    """every text corpus is combined with the graph banks at its position, and written beside nothing but its own name"""
    target = "bin.pgc_from_ptc.__main__"
    works = {"daeso.pgc.creation.pgc_from_ptc": dict(
        text_corpus_file=None, source_graphbank_file=None, target_graphbank_file=None, focus_tags=None, graph_formats=None, relations=None,
        min_token_diff=arg("min_token_diff", Z), max_token_len=arg("max_token_len", Z))}
    defaults = {"min_token_diff": I(0), "max_token_len": I(99999), "source_tag": PStr("s"), "target_tag": PStr("s"),
                "source_format": PStr("alpino"), "target_format": PStr("alpino")}
    FILES = ("parallel_text_corpora", "source_graphbanks", "target_graphbanks")
    given_relations = z3.Bool("given_relations")

    def argument(self, eng, st, dest, o):
        if dest in self.FILES:
            # no corpora, unless they are given
            st = st.copy()
            st.assume(self.number(dest) >= 0)
            return [(st, st.alloc(ListP(ety=STR, arr=z3.Const("arg_" + dest, arr_sort(STR)), ln=self.number(dest))))]
        if dest == "relations":
            a, b = st.copy(), st.copy()
            a.assume(self.given_relations)
            b.assume(z3.Not(self.given_relations))
            self.standard = o.get("default", NONE)
            x = a.alloc(ListP(ety=STR, arr=z3.Const("arg_relations", arr_sort(STR)), ln=z3.Int("n_arg_relations")))
            a.assume(z3.Int("n_arg_relations") >= 1)
            return [(a, x), (b, self.standard)]
        return Tool.argument(self, eng, st, dest, o)

    def number(self, dest):
        return z3.Int("n_arg_" + dest)

    def rest(self, c):
        Tool.rest(self, c)
        c.st.mutate(self.ghost).fields["@written"] = I(0)

    def models(self, c):
        m = Tool.models(self, c)
        m["fn:" + CORPUS + ".write"] = self.write
        return m

    def both(self, eng, st, v, names):
        for s, n in zip(("source", "target"), names):
            (_, x), = eng.getattr_(st, v, s, None)
            yield "-" + s, eng.enc(st, x, STR) == z3.Const("arg_" + n, S_)

    def work(self, eng, st, f, env, e):
        n = eng.num(st, st.place(self.ghost).fields["@" + f]).t
        for p, d in zip(("text_corpus_file", "source_graphbank_file", "target_graphbank_file"), self.FILES):
            eng.oblige(p, st, eng.enc(st, env[p], STR) == z3.Const("arg_" + d, arr_sort(STR))[n], line(e))
        for p, d in (("focus_tags", ("source_tag", "target_tag")), ("graph_formats", ("source_format", "target_format"))):
            for l, x in self.both(eng, st, env[p], d):
                eng.oblige(p + l, st, x, line(e))
        r = env["relations"]
        if eng.listref(st, r) is not None and eng.listref(st, r) != eng.listref(st, self.standard):
            for l, x in listed("relations")(None)(eng, st, r):
                eng.oblige("relations" + l, st, z3.And(self.given_relations, x), line(e))
        else:
            eng.oblige("standard-relations", st, z3.And(z3.Not(self.given_relations), z3.BoolVal(r is self.standard or r == self.standard)), line(e))
        return Tool.work(self, eng, st, f, env, e)

    def result(self, eng, st, f, env):
        n = z3.simplify(eng.num(st, st.place(self.ghost).fields["@" + f]).t - 1)
        return ModelV(Made(self), number=n)

    def write(self, eng, st, env, e):
        raise Unsupported("writing a corpus")

    def written(self, eng, st, v, outf, at):
        q = st.place(self.ghost).fields
        eng.oblige("written-in-order", st, v.number == eng.num(st, q["@written"]).t, at)
        root = fun("lib_os_path_splitext_0", S_, S_)(BASE(z3.Const("arg_parallel_text_corpora", arr_sort(STR))[v.number]))
        (_, x), = eng.binop(st, "Add", T(STR, root), PStr(".pgc"), None)
        eng.oblige("name-of-the-text-corpus", st, eng.enc(st, outf, STR) == x.t, at)
        st = st.copy()
        q = st.mutate(self.ghost).fields
        q["@written"] = T(INT, eng.num(st, q["@written"]).t + 1)
        return [(st, NONE)]

    def counters(self, eng, st):
        for x in sorted(st.place(self.ghost).fields):
            yield x, eng.num(st, st.place(self.ghost).fields[x]).t

    def inv(self, L):
        if L.it is None:
            return
        for m, (x, _) in enumerate(self.counters(self.c.eng, L.head)):
            yield "so-far" + x, lambda V, m=m: list(self.counters(self.c.eng, V.st))[m][1] == V.k

    def post(self, c, st, ret):
        for x, n in self.counters(c.eng, st):
            yield "all" + x, n == self.number(self.FILES[0])

    def exc(self, c, st, ex):
        ns = [self.number(d) for d in self.FILES]
        return [("different-numbers", z3.Or(ns[0] != ns[1], ns[0] != ns[2]))] if ex.cls == "SystemExit" else None


class Made(Loaded):
    """a corpus that was made"""

    def getattr(self, eng, st, v, name, e):
        if name != "write":
            raise Unsupported("attribute %s of a corpus" % name)
        return [(st, ModelV(WriteMade(self.con), of=v))]


class WriteMade(Loaded):
    def call(self, eng, st, v, args, kw, e):
        if len(args) + ("outf" in kw) != 1 or set(kw) - {"outf", "encoding", "pprint", "abs_path"}:
            raise Unsupported("writing a corpus")
        return self.con.written(eng, st, v.of, args[0] if args else kw["outf"], line(e))


# ----------------------------------------------------------------- phrases
N_GP, N_AL = fun("c_n_graph_pairs", S_, Z), fun("c_n_alignments", S_, Z, Z)
# what belongs to an alignment of a graph pair of a file: texts of its nodes, its relation, graph banks, graphs and nodes
PH = {x: fun("ph_" + x, S_, Z, Z, S_) for x in ("words_source", "relation", "words_target", "node_source", "node_target")}
PG = {x: fun("ph_" + x, S_, Z, S_) for x in ("bank_source", "bank_target", "graph_source", "graph_target")}
ALS = RecFn("c_lines_of_pairs", [S_, Z, Z], lambda F, f, k: z3.If(k <= 0, 0, F(f, k - 1) + N_AL(f, k - 1)))
LINES = RecFn("c_lines_of_files", [Z, Z], lambda F, k: z3.If(k <= 0, 0, F(k - 1) + ALS(NAME(k - 1), N_GP(NAME(k - 1)))))


class Part(object):
    """a corpus, graph pair or part of one, as far as the phrases need it"""
    has_iter = True

    def getattr(self, eng, st, v, name, e):
        if v.what == "pair" and name in ("get_graphs", "get_banks", "alignments_iter", "alignments"):
            return [(st, ModelV(self, what=name, at=v.at))]
        if v.what in ("get_graphs", "get_banks", "nodes") and name in ("source", "target"):
            if v.what == "nodes":
                return [(st, T(STR, PH["node_" + name](*v.at)))]
            return [(st, ModelV(self, what=v.what[4:-1], side=name, at=v.at))]
        if v.what == "graph" and name == "id":
            return [(st, T(STR, PG["graph_" + v.side](*v.at)))]
        if (v.what, name) in (("graph", "get_node_token_string"), ("bank", "get_file_path")):
            return [(st, ModelV(self, what=name, side=v.side, at=v.at))]
        raise Unsupported("attribute %s of a graph pair" % name)

    def call(self, eng, st, v, args, kw, e):
        if v.what == "get_file_path":
            return [(st, T(STR, PG["bank_" + v.side](*v.at)))]
        if v.what == "get_node_token_string":
            n = eng.enc(st, args[0], STR)
            if not (z3.is_app(n) and n.decl().eq(PH["node_" + v.side])):
                raise Unsupported("node of another graph")
            eng.oblige("node-of-the-graph", st, z3.And(n.arg(0) == v.at[0], n.arg(1) == v.at[1]), line(e))
            return [(st, T(STR, PH["words_" + v.side](*n.children())))]
        if v.what in ("get_graphs", "get_banks", "alignments_iter", "alignments"):
            return [(st, v)]
        raise Unsupported("call of a part of a corpus")

    def iterate(self, eng, st, v):
        if v.what == "corpus":
            return [(st, It(N_GP(v.file), lambda k: ModelV(self, what="pair", at=(v.file, k)), None, v, "graph pairs", key=lambda k: PG["graph_source"](v.file, k)))]
        if v.what.startswith("alignments"):
            f, j = v.at
            return [(st, It(N_AL(f, j), lambda k: Tupl([ModelV(self, what="nodes", at=(f, j, k)), T(STR, PH["relation"](f, j, k))]), None, v, "alignments",
                            key=lambda k: PH["relation"](f, j, k)))]
        raise Unsupported("iteration over a part of a corpus")


def parts_in(t):
    """the parts of alignments in a text, from left to right"""
    if z3.is_app(t) and any(t.decl().eq(f) for f in list(PH.values()) + list(PG.values())):
        return [t]
    return [x for c in t.children() for x in parts_in(c)]


class Phrases(Script):
    """a line for each alignment of each graph pair of each corpus, in order"""
    target = "bin.pgc_extract_phrases.__main__"
    props = ("C30",)
    SHORT = ("words_source", "relation", "words_target")
    LONG = ("bank_source", "bank_target", "graph_source", "graph_target", "node_source", "node_target") + SHORT

    def models(self, c):
        m = Script.models(self, c)
        m.update(reading(self, lambda eng, st, f, loading, e: [(st, ModelV(Part(), what="corpus", file=eng.enc(st, f, STR)))]))

        def output(eng, st, vs, x):
            l = getattr(x, "line", None)
            ts = [t for v in vs if isinstance(v, T) for t in parts_in(v.t)]
            n = st.place(self.ghost).fields["@n"].t
            at = [f(n) for f in self.WHERE]
            at[0] = NAME(at[0])
            ok = []
            for names, loud in ((self.SHORT, False), (self.LONG, True)):
                want = [PG[y](*at[:2]) if y in PG else PH[y](*at) for y in names]
                if len(want) == len(ts):
                    ok.append(z3.And(z3.Bool("arg_verbose") == loud, *[a == b for a, b in zip(ts, want)]))
            eng.oblige("line-of-the-next-alignment", st, z3.Or(*ok) if ok else z3.BoolVal(False), l)
            st = st.copy()
            st.mutate(self.ghost).fields["@n"] = T(INT, n + 1)
            return st
        m["print"] = output
        return m

    def given(self, dest, x, st):
        if dest == "corpus":
            i = z3.Int("i")
            a = st.place(x).arr
            return [forall(i, a[i] == NAME(i), [a[i]]), st.place(x).ln == NF, NF >= 1]
        return []

    def rest(self, c):
        self.WHERE = [fun("line_%s" % x, Z, Z) for x in ("file", "pair", "alignment")]
        i, j, k, f = z3.Int("i"), z3.Int("j"), z3.Int("k"), z3.Const("f", S_)
        c.assume(forall(f, N_GP(f) >= 0, [N_GP(f)]), forall([f, j], N_AL(f, j) >= 0, [N_AL(f, j)]))
        self.ghost = c.obj("daeso.pair.Pair", {"@n": I(0)})
        # no two alignments are on one line
        c.assume(forall([i, j, k], z3.Implies(z3.And(0 <= i, i < NF, 0 <= j, j < N_GP(NAME(i)), 0 <= k, k < N_AL(NAME(i), j)), z3.And(
            *[w(LINES(i) + ALS(NAME(i), j) + k) == x for w, x in zip(self.WHERE, (i, j, k))])), [PH["relation"](NAME(i), j, k)]))
        c.assume(LINES(z3.IntVal(0)) == 0, forall(f, ALS(f, z3.IntVal(0)) == 0, [ALS(f, z3.IntVal(0))]), forall(
            [f, j], z3.Implies(j >= 0, ALS(f, j + 1) == ALS(f, j) + N_AL(f, j)), [N_AL(f, j)]))
        # different files
        c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < NF), POS(NAME(i)) == i), [NAME(i)]))

    def number(self, L, V):
        k = V.k
        if L.it.kind == "alignments":
            f, j = L.it.src.at
            return LINES(POS(f)) + ALS(f, j) + k
        if L.it.kind == "graph pairs":
            f = L.it.src.file
            return LINES(POS(f)) + ALS(f, k)
        return LINES(k)

    def inv(self, L):
        if L.it is None:
            return
        n = lambda V: V.st.place(self.ghost).fields["@n"].t
        yield "lines-so-far", lambda V: n(V) == self.number(L, V)

    def post(self, c, st, ret):
        yield "all-alignments", st.place(self.ghost).fields["@n"].t == LINES(NF)


# ----------------------------------------------------------------- archives
NBANKS, BANKFILE = fun("c_n_banks", S_, Z), fun("c_bank_file", S_, Z, S_)


class Zip(Script):
    """every corpus and every graph bank it refers to is in the archive, in one directory"""
    target = "bin.pgc_zip.__main__"
    props = ("C28",)

    def models(self, c):
        def files(eng, st, env, e):
            for l, x in listed("pgc_files")(None)(eng, st, env["patterns"]):
                eng.oblige("the-given-patterns" + l, st, x, line(e))
            st = st.copy()
            return [(st, eng.new_symlist(st, STR, FILE, NF))]

        def archive(eng, st, args, kw, e):
            args = list(args) + [kw[k] for k in ("file", "mode")[len(args):] if k in kw]
            eng.oblige("the-given-archive", st, eng.enc(st, args[0], STR) == z3.Const("arg_zip_file", S_), line(e))
            eng.oblige("a-new-archive", st, eng.enc(st, args[1], STR) == eng.enc(st, PStr("w"), STR) if len(args) > 1 else z3.BoolVal(False), line(e))
            return [(st, ModelV(Archive(self)))]
        m = Script.models(self, c)
        m.update(reading(self, lambda eng, st, f, loading, e: [(st, ModelV(BanksOf(self), file=eng.enc(st, f, STR)))]))
        m.update({"fn:daeso.utils.opsys.multiglob": files, "zipfile.ZipFile": archive})
        return m

    def rest(self, c):
        i, x = z3.Int("i"), z3.Const("x", S_)
        d = z3.Const("archived0", DISK.sort)
        c.assume(NF >= 0, forall(i, FILE[i] == NAME(i), [FILE[i]]), forall(x, z3.Not(d[x]), [d[x]]), forall(x, NBANKS(x) >= 0, [NBANKS(x)]))
        self.ghost = c.obj("daeso.pair.Pair", {"@in": T(DISK, d), "@closed": B(False)})

    def inside(self, st):
        return st.place(self.ghost).fields["@in"].t

    def files(self, st, k):
        i, j = z3.Ints("i j")
        yield "corpora", forall(i, z3.Implies(z3.And(0 <= i, i < k), self.inside(st)[NAME(i)]), [NAME(i)])
        yield "banks", forall([i, j], z3.Implies(z3.And(0 <= i, i < k, 0 <= j, j < NBANKS(NAME(i))), self.inside(st)[BANKFILE(NAME(i), j)]), [BANKFILE(NAME(i), j)])

    def inv(self, L):
        if L.it is None:
            return
        if L.it.kind == "banks":
            f, j = L.it.src.file, z3.Int("j")
            yield "banks-so-far", lambda V: forall(j, z3.Implies(z3.And(0 <= j, j < V.k), self.inside(V.st)[BANKFILE(f, j)]), [BANKFILE(f, j)])
            if L.outer is not None and L.outer.it is not None:
                for m, l in enumerate(("corpora", "banks")):
                    yield l, lambda V, m=m: list(self.files(V.st, L.outer.k))[m][1]
                yield "this-corpus", lambda V: self.inside(V.st)[f]
            return
        for m, l in enumerate(("corpora", "banks")):
            yield l, lambda V, m=m: list(self.files(V.st, V.k))[m][1]

    def post(self, c, st, ret):
        for x in self.files(st, NF):
            yield x
        yield "closed", c.eng.truth_term(st, st.place(self.ghost).fields["@closed"])


class Archive(Loaded):
    def getattr(self, eng, st, v, name, e):
        return [(st, ModelV(Archiving(self.con), name=name))]


class Archiving(Loaded):
    def call(self, eng, st, v, args, kw, e):
        g = st.place(self.con.ghost).fields
        eng.oblige("still-open", st, z3.Not(eng.truth_term(st, g["@closed"])), line(e))
        st = st.copy()
        g = st.mutate(self.con.ghost).fields
        if v.name == "close":
            g["@closed"] = B(True)
            return [(st, NONE)]
        if v.name != "write":
            raise Unsupported("method %s of an archive" % v.name)
        args = list(args) + [kw[k] for k in ("filename", "arcname")[len(args):] if k in kw]
        x, y = (eng.enc(st, a, STR) for a in args[:2])
        root = fun("lib_os_path_splitext_0", S_, S_)(BASE(z3.Const("arg_zip_file", S_)))
        eng.oblige("all-in-one-directory", st, y == JOIN(root, BASE(x)), line(e))
        g["@in"] = T(DISK, z3.Store(g["@in"].t, x, z3.BoolVal(True)))
        return [(st, NONE)]


class BanksOf(Loaded):
    def getattr(self, eng, st, v, name, e):
        if name != "_graphbanks":
            raise Unsupported("attribute %s of a corpus" % name)
        return [(st, ModelV(BankSet(), file=v.file))]


class BankSet(object):
    has_iter = True

    def call(self, eng, st, v, args, kw, e):
        return [(st, v)]

    def iterate(self, eng, st, v):
        return [(st, It(NBANKS(v.file), lambda k: ModelV(BankFile(), path=BANKFILE(v.file, k)), None, v, "banks", key=lambda k: BANKFILE(v.file, k)))]


class BankFile(object):
    def getattr(self, eng, st, v, name, e):
        if name != "get_file_path":
            raise Unsupported("attribute %s of a graph bank" % name)
        return [(st, v)]

    def call(self, eng, st, v, args, kw, e):
        return [(st, T(STR, v.path))]


CONTRACTS = [Split, Join, Copy, ChangeDir, TextDir, NToId, Stats, BankStats, TextDiff, TextEval, GraphDiff, Agreement, FromText, Zip, Phrases]
LEMMAS = []
