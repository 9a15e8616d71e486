# Runs under Jython 2.7 (the interpreter that runs /repo): parse the given
# files with Jython's own parser and dump the ASTs as one JSON document.
# Nothing is dropped except comments, column offsets and expression contexts.
import sys, ast, json, os

DROP = ("ctx",)


def conv(n):
    if isinstance(n, ast.AST):
        d = {"_": n.__class__.__name__}
        ln = getattr(n, "lineno", None)
        if ln is not None:
            d["line"] = int(ln)
        for f in n._fields:
            if f in DROP:
                continue
            d[f] = conv(getattr(n, f, None))
        return d
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, (int, long)):
        return {"_": "#int", "v": str(n)}
    if isinstance(n, float):
        return {"_": "#float", "v": repr(n)}
    if isinstance(n, unicode):
        return {"_": "#str", "v": n, "u": True}
    if isinstance(n, str):
        return {"_": "#str", "v": n.decode("latin-1"), "u": False}
    if isinstance(n, complex):
        return {"_": "#complex", "v": repr(n)}
    # identifiers come out of Jython as str; anything else is unexpected
    raise TypeError("cannot dump %r" % (n,))


def main(argv):
    out = {}
    for fn in argv[1:]:
        src = open(fn, "rb").read()
        try:
            tree = ast.parse(src, fn)
            out[fn] = conv(tree)
        except SyntaxError, e:
            out[fn] = {"_": "SyntaxError", "msg": str(e)}
    json.dump(out, sys.stdout)


main(sys.argv)
