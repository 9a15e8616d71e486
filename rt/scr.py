# -*- coding: utf-8 -*-
# shared: running the command line scripts in a scratch directory
import StringIO, zipfile
from c24 import *
from pgcgen import *
import daeso
from daeso.pgc.corpus import ParallelGraphCorpus

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(daeso.__file__)))), "bin")
STRICT = ParallelGraphCorpus.write.im_func


class Out(object):
    """what is written, as bytes"""
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s.encode("utf-8") if isinstance(s, unicode) else s)

    def flush(self):
        pass

    def get(self):
        return "".join(self.parts)


def run(name, args, cwd=None):
    """(exit status, standard output, standard error) of a script"""
    old = sys.argv, sys.stdout, sys.stderr, STRICT.func_defaults, os.getcwd()
    out, err = Out(), Out()
    # the default file of write is the standard output at the time of import
    STRICT.func_defaults = tuple(out if d is old[1] or d is sys.__stdout__ else d for d in old[3])
    sys.argv, sys.stdout, sys.stderr = [name + ".py"] + list(args), out, err
    try:
        if cwd:
            os.chdir(cwd)
        try:
            execfile(os.path.join(BIN, name + ".py"), {"__name__": "__main__", "__file__": name + ".py"})
            code = 0
        except SystemExit, e:
            code = e.code or 0
    finally:
        sys.argv, sys.stdout, sys.stderr, STRICT.func_defaults = old[:4]
        if cwd:
            os.chdir(old[4])
    return code, out.get(), err.get()


def fine(name, *args, **kw):
    """standard output of a script that must not fail"""
    try:
        code, out, err = run(name, args, **kw)
    except Exception, e:
        raise Violation("%s must not fail" % name, "no exception", "%s: %s" % (e.__class__.__name__, e))
    if code:
        raise Violation("%s must not fail" % name, 0, show((code, err)))
    return out


def files(s):
    """all files below the scratch directory with their contents"""
    out = {}
    for d, _, fs in os.walk(s.dir):
        for f in fs:
            f = os.path.join(d, f)
            h = open(f, "rb")
            out[os.path.relpath(f, s.dir)] = h.read()
            h.close()
    return out
