"""developer driver: python3-vt -m pyvc.dev module [ContractName[:case]]"""
import importlib, sys, time
from .src import Program
from .verify import run_case, Contract
from .lemmas import prove_lemma


def main():
    mod = importlib.import_module("contracts." + sys.argv[1])
    want = sys.argv[2] if len(sys.argv) > 2 else None
    verbose = "-v" in sys.argv
    cons = {}
    for c in mod.CONTRACTS + [x for m in getattr(mod, "USES", []) for x in importlib.import_module("contracts." + m).CONTRACTS]:
        cons[c.target] = c()
    prog = Program()
    prog.load_closure(sorted(set(t for c in cons.values() for t in [c.target.rsplit(".", 1)[0], c.target.rsplit(".", 2)[0]])))
    for l in getattr(mod, "LEMMAS", []):
        if want in (None, "lemmas"):
            print("lemma", l.name, prove_lemma(l))
    for c in mod.CONTRACTS:
        if want and want != "-v" and c.__name__ != want.split(":")[0]:
            continue
        for case in c.cases:
            if want and ":" in want and case != want.split(":")[1]:
                continue
            r = run_case(prog, c(), case, cons, verbose)
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            print("%s[%s]: %d obligations, %d failed, unsupported=%s, %.1fs (solver %.1f, %d queries), paths %d" % (
                c.__name__, case, len(r["obligations"]), len(bad), r["unsupported"], r["wall_s"],
                r["solver_s"], r["queries"], r["paths"]))
            for o in bad:
                print("   FAILED", o["name"], o["line"], o["status"], o["t"])
                if verbose:
                    print("     goal", o["goal"][:600])
                    print("     model", (o.get("model") or "")[:800])
            if verbose:
                print("   inlined", r["inlined"], "used", r["used_contracts"], "notes", r["notes"])
                print("   dropped", r["dropped"])


main()
