"""Loading of Python 2 sources: Jython AST -> JSON -> Node objects, and a
small model of modules and classes (names, bases, method resolution)."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
JYLIB = "/opt/jy/lib"


class Node(object):
    def __init__(self, kind, line, fields):
        self.kind = kind
        self.line = line
        self.__dict__.update(fields)

    def __repr__(self):
        return "<%s@%s>" % (self.kind, self.line)


def _mk(d):
    if isinstance(d, list):
        return [_mk(x) for x in d]
    if not isinstance(d, dict):
        return d
    k = d["_"]
    if k == "#int":
        return int(d["v"])
    if k == "#float":
        return float(d["v"])
    if k == "#str":
        return d["v"]
    if k == "#complex":
        return complex(d["v"])
    return Node(k, d.get("line"), {f: _mk(v) for f, v in d.items()
                                   if f not in ("_", "line")})


def jython_env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    e["PATH"] = ("/opt/jy/bin:%s/bin:/usr/local/sbin:/usr/local/bin:"
                 "/usr/sbin:/usr/bin:/sbin:/bin" % REPO)
    e["JYTHONPATH"] = "%s/lib:%s" % (REPO, JYLIB)
    for k in ("PYTHONPATH", "JAVA_TOOL_OPTIONS", "CLASSPATH"):
        e.pop(k, None)
    return e


def parse_files(files):
    """{file: Node(Module)}; SyntaxError nodes for files that do not parse"""
    files = [f for f in files if os.path.exists(f)]
    if not files:
        return {}
    p = subprocess.run(["jython2", os.path.join(HERE, "jyast.py")] + files,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=jython_env())
    if p.returncode != 0:
        raise RuntimeError("AST dump failed: " + p.stderr.decode("utf8", "replace")[-2000:])
    return {f: _mk(d) for f, d in json.loads(p.stdout.decode("utf8")).items()}


def mod_file(name):
    if name.startswith("bin."):
        # a script
        f = os.path.join(REPO, "bin", name[4:] + ".py")
        return f if os.path.isfile(f) else None
    for root in (os.path.join(REPO, "lib"), JYLIB):
        base = os.path.join(root, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
    return None


class FuncInfo(object):
    def __init__(self, mod, node, cls=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.is_gen = has_yield(node)
        self.decos = []
        for d in getattr(node, "decorator_list", None) or []:
            self.decos.append(d.id if d.kind == "Name" else d.kind)

    @property
    def qual(self):
        return "%s.%s%s" % (self.mod.name,
                            self.cls.name + "." if self.cls else "", self.name)

    def __repr__(self):
        return "<func %s>" % self.qual


class ClassInfo(object):
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if s.kind == "FunctionDef":
                self.methods[s.name] = FuncInfo(mod, s, self)
                self.attrs.pop(s.name, None)
            elif s.kind == "Assign":
                for t in s.targets:
                    if t.kind == "Name":
                        self.attrs[t.id] = s.value
                        self.methods.pop(t.id, None)

    def __repr__(self):
        return "<class %s.%s>" % (self.mod.name, self.name)


class Module(object):
    def __init__(self, name, tree, fname):
        self.name = name
        self.fname = fname
        self.names = {}
        self.bad = tree.kind == "SyntaxError"
        if not self.bad:
            self._scan(tree.body)
            if name.startswith("bin."):
                # running the script: all its statements, as a function without arguments
                none = Node("arguments", 0, {"args": [], "vararg": None, "kwarg": None, "defaults": []})
                self.names["__main__"] = FuncInfo(self, Node("FunctionDef", 0, {
                    "name": "__main__", "args": none, "body": tree.body, "decorator_list": []}))

    def _scan(self, body):
        for s in body:
            k = s.kind
            if k == "FunctionDef":
                self.names[s.name] = FuncInfo(self, s)
            elif k == "ClassDef":
                self.names[s.name] = ClassInfo(self, s)
            elif k == "Assign":
                for t in s.targets:
                    if t.kind == "Name":
                        self.names[t.id] = ("expr", s.value)
                    elif t.kind == "Tuple":
                        for i, e in enumerate(t.elts):
                            if e.kind == "Name":
                                self.names[e.id] = ("item", s.value, i)
            elif k == "Import":
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ("mod", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = \
                            ("mod", a.name.split(".")[0])
            elif k == "ImportFrom":
                m = s.module or ""
                for a in s.names:
                    if a.name == "*":
                        self.names.setdefault("*", []).append(m)
                    else:
                        self.names[a.asname or a.name] = ("from", m, a.name)
            elif k in ("TryExcept",):
                self._scan(s.body)
            elif k == "If":
                # only the first branch of module level ifs
                if not (s.test.kind == "Compare" or
                        (s.test.kind == "Name" and s.test.id == "False")):
                    self._scan(s.body)


def walk(n):
    """all nodes below n, not entering nested functions/classes/lambdas"""
    todo = [n]
    first = True
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo.extend(x)
            continue
        if not isinstance(x, Node):
            continue
        if not first and x.kind in ("FunctionDef", "ClassDef", "Lambda"):
            continue
        first = False
        yield x
        for f, v in x.__dict__.items():
            if isinstance(v, (Node, list)):
                todo.append(v)


def has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        if s.kind in ("FunctionDef", "ClassDef"):
            continue
        for x in walk(s):
            if x.kind == "Yield":
                return True
    return False


class Program(object):
    """lazily parsed set of modules; parse() batches the Jython calls"""

    def __init__(self):
        self.mods = {}

    def load(self, names):
        want = {}
        for n in names:
            if n not in self.mods:
                f = mod_file(n)
                if f:
                    want[f] = n
        if want:
            trees = parse_files(sorted(want))
            for f, n in want.items():
                self.mods[n] = Module(n, trees[f], f)
        return [self.mods.get(n) for n in names]

    def load_closure(self, names):
        """the modules and everything of daeso they import, directly or not;
        the (textual) over-approximation of the imports saves Jython calls"""
        todo, want = list(names), {}
        while todo:
            n = todo.pop()
            f = mod_file(n)
            if n in want or not f:
                continue
            want[n] = f
            with open(f, encoding="latin-1") as fh:
                txt = fh.read()
            for m in re.findall(r"daeso(?:\.\w+)+", txt):
                todo.append(m)
                todo.append(m.rsplit(".", 1)[0])
            pkg = n.rsplit(".", 1)[0] if "." in n else n
            for m in re.findall(r"(?:from|import)\s+(\w+)", txt):
                todo.append(pkg + "." + m)
                if f.endswith("__init__.py"):
                    todo.append(n + "." + m)
        self.load(sorted(want))

    def get(self, name):
        if name not in self.mods and mod_file(name):
            self.load([name])
        return self.mods.get(name)
