"""check.py PROPERTY [--tier quick|thorough]

1. regenerate every proof obligation of the property from /repo's current
   source and discharge it (z3, cvc5);
2. in parallel, run the real code under Jython against the executable form of
   the contracts (bounded: replay, cross-check, and stand-in for what the
   verifier does not reach);
3. report."""
import importlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")


def start_rt(prop, tier, seed, secs, out, replay=None):
    from pyvc.src import jython_env
    e = jython_env()
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    cmd = ["jython2", os.path.join(HERE, "rt", "run.py"), prop, tier, str(seed), str(secs), out]
    if replay:
        cmd.append(replay)
    return subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            cwd=os.path.join(HERE, "rt"))


def wait_rt(p, out, limit):
    try:
        txt = p.communicate(timeout=limit)[0].decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        p.kill()
        txt = p.communicate()[0].decode("utf8", "replace")
        return {"groups": [], "violation": None, "error": "runtime harness stopped: " + txt[-500:]}
    try:
        with open(out) as f:
            return json.load(f)
    except Exception as ex:
        return {"groups": [], "violation": None,
                "error": "runtime harness failed (%s): %s" % (ex, txt[-1500:])}
    finally:
        if os.path.exists(out):
            os.unlink(out)


def load_contracts(prop):
    from registry import PROPS, USES
    mods = [importlib.import_module("contracts." + m) for m in PROPS[prop]]
    alln = list(PROPS[prop])
    for m in mods:
        for u in getattr(m, "USES", []):
            if u not in alln:
                alln.append(u)
    cons = {}
    jobs, lemmas = [], []
    for m in alln:
        mm = importlib.import_module("contracts." + m)
        for c in mm.CONTRACTS:
            o = c()
            if c.target not in cons or not getattr(c, "secondary", False):
                cons[c.target] = o
            if m in PROPS[prop] and prop in c.props:
                for case in c.cases:
                    jobs.append((c(), case))
        if m in PROPS[prop]:
            lemmas.extend(l for l in getattr(mm, "LEMMAS", []))
    return cons, jobs, lemmas


def load_program(cons):
    from pyvc.src import Program
    prog = Program()
    mods = set()
    for t in cons:
        for n in (1, 2):
            mods.add(t.rsplit(".", n)[0])
    extra = set()
    for c in cons.values():
        extra.update(getattr(c, "modules", ()))
    prog.load_closure(sorted(mods | extra))
    return prog


def known_findings():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
        elif a.startswith("--tier="):
            tier = a.split("=", 1)[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rt = os.path.exists(os.path.join(HERE, "rt", prop.lower() + ".py"))
    secs = 8 if tier == "quick" else 240
    out = os.path.join(HERE, "replay", "rt_%s_%d.json" % (prop, os.getpid()))
    rtp = start_rt(prop, tier, seed, secs, out) if rt else None

    # ---- proofs
    from pyvc.verify import run_all
    from pyvc.lemmas import prove_lemmas
    results, lem, perr, rtres = [], [], None, None
    try:
        cons, jobs, lemmas = load_contracts(prop)
        prog = load_program(cons)
        if tier != "quick":
            for c, _ in jobs:
                c.budget *= 3
                c.timeout *= 3
                c.hto *= 2
        limit = (420 if tier == "quick" else 3000)
        results = run_all(prog, jobs, cons, procs=7, deadline=t0 + limit)
        lem = prove_lemmas(lemmas)
        if rtp:
            rtres = wait_rt(rtp, out, 400 if tier == "quick" else 3000)
        # anything that failed gets a second, unhurried attempt
        redo = [r for r in results if r["unsupported"] in ("worker died", "time limit") or (
            r["unsupported"] or "").startswith("verification time") or any(
                o["status"] != "proved" for o in r["obligations"])]
        if redo and len(redo) < 20 and not (rtres and rtres["violation"]):
            keys = {(r["contract"], r["case"]) for r in redo}
            again = []
            for c, case in jobs:
                if (type(c).__name__, case) in keys:
                    c.budget *= 2
                    c.hto *= 2
                    again.append((c, case))
            new = {(r["contract"], r["case"]): r for r in run_all(
                prog, again, cons, procs=7, deadline=time.time() + limit * 0.6)}

            def bad(r):
                return (r["unsupported"] is not None, sum(
                    o["status"] != "proved" for o in r["obligations"]))
            results = [min(r, new.get((r["contract"], r["case"]), r), key=bad) for r in results]
    except Exception as ex:
        import traceback
        perr = "%s: %s" % (type(ex).__name__, ex)
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()

    obligs = [(r, o) for r in results for o in r["obligations"]]
    failed = [(r, o) for r, o in obligs if o["status"] != "proved"]
    unsup = [r for r in results if r["unsupported"]]
    lfail = [l for l in lem if l["status"] != "proved"]
    if rtres is None:
        rtres = wait_rt(rtp, out, secs * 3 + 240) if rtp else {
            "groups": [], "violation": None, "error": None}
    # a failed or unreachable obligation: look harder for a concrete witness
    search = None
    if (failed or unsup or perr) and rtp and not rtres.get("violation"):
        p2 = start_rt(prop, "search", seed + 1, 60 if tier == "quick" else 300, out)
        search = wait_rt(p2, out, 140 if tier == "quick" else 900)
        if search.get("violation"):
            rtres["violation"] = search["violation"]

    kf = [k for k in known_findings() if k[0] == prop]
    nviol = 0
    v = rtres.get("violation")
    rc = 0
    rp = os.path.join(HERE, "replay", "%s.json" % prop)
    fl = [{"function": r["target"], "case": r["case"], "obligation": o["name"],
           "line": o["line"], "solver": o["status"], "backend": o["backend"],
           "goal": o.get("goal"), "model": o.get("model")} for r, o in failed]
    if v or failed:
        rep = {"property": prop, "violation": v, "failed_obligations": fl,
               "replay_with": "jython2 rt/run.py %s quick 1 10 OUT.json %s (see check.py --replay)"
               % (prop, rp) if v else None}
        with open(rp, "w") as f:
            json.dump(rep, f, indent=1)
        nviol = 1
        rc = 1
        for x in fl[:8]:
            print("failed obligation: %s [%s] %s (line %s): %s" % (
                x["function"], x["case"], x["obligation"], x["line"], x["solver"]))
        if v:
            print("failing input: group=%s case=%s\n  %s\n  expected %s\n  got %s" % (
                v["group"], v["case"][:800], v["what"], v["expected"], v["got"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if rc == 0 and not any(r["obligations"] for r in results) and (
            rtp is None or rtres.get("error")):
        print("no answer: neither proofs nor runtime checks could run: %s %s" % (
            perr, rtres.get("error")))
        rc = 2

    # ---- evidence
    fns = {}
    for r in results:
        d = fns.setdefault(r["target"], {"cases": [], "obligations": 0, "discharged": 0,
                                         "solver_s": 0.0, "status": "proved"})
        d["cases"].append(r["case"])
        d["obligations"] += len(r["obligations"])
        d["discharged"] += sum(o["status"] == "proved" for o in r["obligations"])
        d["solver_s"] = round(d["solver_s"] + r["solver_s"], 2)
        if r["unsupported"]:
            d["status"] = "bounded stand-in only: " + r["unsupported"][:300]
    backends = {}
    for r, o in obligs:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    for l in lem:
        backends[l["backend"]] = backends.get(l["backend"], 0) + 1
    nob = len(obligs) + len(lem)
    ndis = nob - len(failed) - len(lfail)
    assumed = sorted({a for r in results for a in r["assumed"]})
    from contracts import trust
    from registry import LEVELS
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "python3-vt check.py %s --tier %s (pyvc: VCs from the Jython AST of /repo; "
                       "z3 %s, cvc5)" % (prop, tier, z3_version()),
        "trusted_base": trust.BASE + assumed,
        "functions_under_contract": fns,
        "functions_executed_inline": sorted({x for r in results for x in r["inlined"]}),
        "contracts_used_at_calls": sorted({x for r in results for x in r["used_contracts"]}),
        "lemmas": [l["name"] for l in lem],
        "backends": backends,
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "queries": sum(r["queries"] for r in results),
        "bounded_checks_on_real_code": rtres.get("groups", []),
        "evaluations": sum(g["evaluations"] for g in rtres.get("groups", [])),
        "distinct_nontrivial": sum(g["distinct"] for g in rtres.get("groups", [])),
        "rule": "cases as described per group in bounded_checks_on_real_code; distinct by "
                "their written form",
        "samples": [s for g in rtres.get("groups", []) for s in g["samples"][:2]][:8],
    }
    if search:
        cov["witness_search"] = search.get("groups", [])
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": LEVELS.get(prop, "proof"), "coverage": cov,
          "assumptions": trust.ASSUME + trust.PER_PROPERTY.get(prop, []),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if perr:
        cov["verifier_error"] = perr
    if rtres.get("error"):
        cov["runtime_error"] = rtres["error"]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations discharged in %d cases of %d functions; %d bounded cases on "
          "the real code; %.1f s" % (prop, tier, ndis, nob, len(results), len(fns),
                                     cov["evaluations"], time.time() - t0))
    if os.environ.get("PYVC_STRICT"):
        for r in unsup:
            print("UNSUPPORTED", r["target"], r["case"], r["unsupported"])
        for l in lfail:
            print("LEMMA", l)
        if perr or rtres.get("error"):
            print("ERROR", perr, rtres.get("error"))
    return rc


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as ex:
        # the check itself must always answer
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
