# -*- coding: utf-8 -*-
from gp import *


def check(ops):
    run(GraphMatching, [tuple(o) for o in ops])


def gen(R):
    for c in gen_ops(R, ["a", "b"], ["r1"], R.pick(3, 4)):
        yield c
    while True:
        yield rand_ops(R)


GROUPS = [Group("matching-histories", gen, check, "all histories of up to 3 operations on 2 shared node names, "
                "then random histories of up to 14 operations on 7 names")]
