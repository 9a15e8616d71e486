import time
import z3
from .engine import TH, limit
from . import vals
from .verify import cvc5_check


def prove_lemma(l, timeout=10.0):
    """prove a lemma with only its own `uses` in scope"""
    saved = dict(TH.ax)
    for k in list(TH.ax):
        if k.startswith("lemma:"):
            del TH.ax[k]
    t0 = time.time()
    try:
        pc, goal = l.obligation()
        axs = vals.lit_axioms() + TH.all()
        for seed, auto in ((1, False), (1, True), (7, False), (42, True)):
            s = z3.SimpleSolver()
            s.set("auto_config", auto)
            limit(s, timeout)
            s.set("random_seed", seed)
            for f in axs + pc:
                s.add(f)
            s.add(z3.Not(goal))
            r = str(s.check())
            if r != "unknown":
                break
        st, be = ("proved", "z3") if r == "unsat" else ("refuted" if r == "sat" else "unknown", "z3")
        if st != "proved":
            r = cvc5_check(axs, pc, goal, timeout)
            if r == "unsat":
                st, be = "proved", "cvc5"
        return {"name": "lemma:" + l.name, "line": None, "kind": "lemma", "status": st,
                "t": round(time.time() - t0, 3), "backend": be}
    finally:
        TH.ax.clear()
        TH.ax.update(saved)


def prove_lemmas(ls):
    return [prove_lemma(l) for l in ls]
