# -*- coding: utf-8 -*-
# Runtime side of the contracts (Jython 2.7): executes the real code of /repo
# on concrete cases and evaluates executable forms of the contracts.
# A bounded check: never counted as proof.
import random, time, sys, os, itertools, traceback


class Violation(Exception):
    def __init__(self, what, expected=None, got=None, sig=None):
        Exception.__init__(self, what)
        self.what = what
        self.expected = expected
        self.got = got
        self.sig = sig or what


def show(x):
    try:
        s = repr(x)
    except Exception, e:
        s = "<unprintable: %s>" % e
    return s if len(s) < 600 else s[:600] + "..."


def eq(got, expected, what):
    """contract clause: got == expected (and the same type)"""
    if not (got == expected) or type(got) != type(expected) and not (
            isinstance(got, (int, long, float)) and isinstance(expected, (int, long, float))):
        raise Violation(what, show(expected), show(got))


def close(got, expected, what, tol=1e-9):
    if isinstance(got, bool) or not isinstance(got, (int, long, float)) or \
            got != got or abs(got - expected) > tol * max(1.0, abs(expected)):
        raise Violation(what, show(expected), show(got))


def holds(cond, what, got=None, expected=None):
    if not cond:
        raise Violation(what, show(expected), show(got))


def raises(exc, what, f, *a, **k):
    try:
        r = f(*a, **k)
    except exc:
        return
    except Exception, e:
        raise Violation(what, "exception " + str(exc), "%s: %s" % (e.__class__.__name__, e))
    raise Violation(what, "exception " + str(exc), "returned " + show(r))


class Group(object):
    """a family of cases: gen(R) yields tuples of plain data; check(*case)
    raises Violation.  bound: a sentence on what is enumerated."""
    def __init__(self, name, gen, check, bound="", share=1.0):
        self.name, self.gen, self.check, self.bound, self.share = name, gen, check, bound, share


class R(object):
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.rng = random.Random(seed)
        self.deep = tier != "quick"

    def pick(self, quick, deep):
        return deep if self.deep else quick


# ----------------------------------------------------------- case generators
def words(alpha, maxlen):
    """all sequences over alpha up to maxlen, as lists"""
    for n in range(maxlen + 1):
        for w in itertools.product(alpha, repeat=n):
            yield list(w)


def rand_word(rng, alpha, maxlen):
    return [rng.choice(alpha) for _ in range(rng.randint(0, maxlen))]


def as_kind(w, kind):
    if kind == "str":
        return "".join(w)
    if kind == "unicode":
        return u"".join(w)
    if kind == "tuple":
        return tuple(w)
    return list(w)
