"""Contracts, and the runner that discharges their obligations."""
import multiprocessing
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import z3

from .vals import *
from . import vals
from . import engine as E
from .engine import *
from .engine import fun, TH, arr_sort
from .calls import Calls, ExcV
from .stmts import Stmts
from .src import Program, FuncInfo, ClassInfo


class Verifier(Stmts, Calls, Engine):
    pass


class Contract(object):
    """specification of one function; subclasses live in /verif/contracts"""
    target = None           # dotted name of the function
    props = ()              # properties it serves
    cases = ("",)           # argument shapes, each verified separately
    need_termination = True
    char_ty = None
    budget = 120
    hto = 2.0
    retry = False
    then = None             # then(c, st, ret): [(state, value)] to go on with
    timeout = 10.0

    def setup(self, c):
        raise NotImplementedError

    def inv(self, L):
        return []

    def variants(self, L):
        return []

    def post(self, c, st, ret):
        return []

    def exc(self, c, st, exc):
        """obligations for an exceptional exit; None: must not happen"""
        return None

    def apply(self, eng, st, env, e):
        """use of the contract at a call site; None: execute the body"""
        return None

    def counts(self, eng, st):
        """functions F(k) that may count the elements a filter selects"""
        return []

    def models(self, c):
        return {}

    def method_models(self, c):
        return {}


class Ctx(object):
    """entry state builder"""

    def __init__(self, eng, case):
        self.eng = eng
        self.case = case
        self.st = State()

    def assume(self, *fs):
        for f in fs:
            self.st.assume(f)

    def int(self, name, lo=None):
        t = z3.Int(name)
        if lo is not None:
            self.st.assume(t >= lo)
        return T(INT, t)

    def real(self, name):
        return T(REAL, z3.Real(name))

    def bool(self, name):
        return T(BOOL, z3.Bool(name))

    def term(self, ty, name):
        return T(ty, z3.Const(name, ty.sort))

    def seq(self, name, ety=ELEM, kind="list"):
        """a sequence argument of arbitrary length"""
        arr = z3.Const(name, arr_sort(ety))
        ln = z3.Int("len_" + name)
        self.st.assume(ln >= 0)
        if kind == "list":
            return self.eng.new_symlist(self.st, ety, arr, ln)
        return SeqV(ety, arr, ln, kind)

    def dict(self, name, kty, vty, kind="dict"):
        p = DictP(kty=kty, vty=vty, dom=z3.Const("dom_" + name, SET(kty).sort),
                  mp=z3.Const("map_" + name, z3.ArraySort(kty.sort, vty.sort)),
                  dkind=kind)
        return self.st.alloc(p)

    def set(self, name, ety):
        return self.st.alloc(SetP(ety=ety, arr=z3.Const(name, SET(ety).sort)))

    def ufn(self, name, atys, rty, total=True):
        """an arbitrary pure function parameter"""
        f = z3.Function(name, *([a.sort for a in atys] + [rty.sort]))

        def apply(eng, st, args):
            if len(args) != len(atys):
                return [(st, Exc("TypeError", None, None))]
            return [(st, eng.dec(rty, f(*[eng.enc(st, a, t)
                                          for a, t in zip(args, atys)])))]
        u = UFn(name, apply)
        u.f = f
        return u

    def obj(self, qual, fields=None):
        mod, name = qual.rsplit(".", 1)
        info = self.eng.prog.get(mod).names[name]
        return self.st.alloc(ObjP(info, fields or {}))


def resolve(prog, target):
    """FuncInfo of a dotted target (module.function or module.Class.method)"""
    parts = target.split(".")
    for i in range(len(parts) - 1, 0, -1):
        m = prog.get(".".join(parts[:i]))
        if m is None:
            continue
        x = m.names.get(parts[i])
        rest = parts[i + 1:]
        if isinstance(x, tuple) and x[0] == "expr" and x[1].kind == "Name":
            x = m.names.get(x[1].id)
        if isinstance(x, FuncInfo) and not rest:
            return x
        if isinstance(x, ClassInfo) and len(rest) == 1:
            f = x.methods.get(rest[0])
            if f is None and rest[0] in x.attrs:
                a = x.attrs[rest[0]]
                if a.kind == "Name":
                    f = x.methods.get(a.id)
                elif a.kind == "Lambda":
                    f = FuncInfo(m, a, x)
            return f
        return None
    return None


def cvc5_check(axs, pc, goal, timeout):
    s = z3.Solver()
    for f in axs:
        s.add(f)
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 2000), fh.name],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout * 3 + 10)
        return p.stdout.decode().strip().split("\n")[-1]
    except Exception:
        return "error"
    finally:
        os.unlink(fh.name)


def discharge(eng, o, timeout):
    t0 = time.time()
    dl, eng.deadline = eng.deadline, None
    for seed, auto in ((None, False), (None, True), (7, False), (42, True)):
        r, m = eng.check(o.pc, o.goal, timeout / 3.0, seed, auto, tactic=auto)
        if r == "unsat":
            o.status, o.backend = "proved", "z3"
            break
        if r == "sat":
            o.status, o.backend, o.model = "refuted", "z3", m
            break
    else:
        r = cvc5_check(eng.axioms(), o.pc, o.goal, timeout)
        if r == "unsat":
            o.status, o.backend = "proved", "cvc5"
        else:
            if os.environ.get("PYVC_DUMP") == o.name:
                eng.dump(o.pc, o.goal)
            o.status, o.backend = "unknown", "z3+cvc5"
    eng.deadline = dl
    o.t = time.time() - t0
    return o.status


def run_case(prog, contract, case, contracts, verbose=False, discharge_all=True):
    """verify one case of a contract; returns a plain dict"""
    t0 = time.time()
    res = {"target": contract.target, "contract": type(contract).__name__,
           "case": case, "obligations": [], "unsupported": None,
           "inlined": [], "used_contracts": [], "assumed": [], "notes": [],
           "queries": 0, "solver_s": 0.0, "paths": 0, "dropped": []}
    info = resolve(prog, contract.target)
    if info is None:
        res["unsupported"] = "function not found"
        res["wall_s"] = time.time() - t0
        return res
    log = (lambda s: print("   ", s)) if verbose else None
    eng = Verifier(prog, contracts={}, log=log, timeout=contract.timeout,
                   houdini_timeout=contract.hto)
    eng.deadline = time.process_time() + contract.budget
    eng.cur = contract
    try:
        c = Ctx(eng, case)
        c.info = info
        eng.models = dict(contract.models(c))
        eng.retry = contract.retry
        eng.method_models = dict(contract.method_models(c))
        c.st.env = {"__module__": info.mod}
        env = contract.setup(c)
        eng.contracts = {q: x for q, x in contracts.items()}
        own = contracts.get(contract.target)
        st = c.st
        # arguments given by position are bound through the real signature
        if isinstance(env, (list, tuple)):
            a, kw = (env[0], env[1]) if len(env) == 2 and isinstance(env[1], dict) \
                and isinstance(env[0], list) else (list(env), {})
            env = eng.bind_args(st, info, a, kw)
            if isinstance(env, Exc):
                raise Unsupported("signature changed")
        c.args = env
        if eng.check(st.pc, z3.BoolVal(False), 2.0)[0] == "unsat":
            res["unsupported"] = "VACUOUS: precondition is contradictory"
            return res
        if getattr(contract, "recursive", False):
            eng.contracts[contract.target] = contract
        else:
            eng.contracts.pop(contract.target, None)
        outs = eng.run_fn(st, info, env)
        if contract.then is not None:
            # the contract goes on with what was returned (a call of a closure, say)
            outs = [x for s, v in outs for x in ([(s, v)] if isinstance(v, Exc) else contract.then(c, s, v))]
        res["paths"] = len(outs)
        nret = 0
        for i, (s, v) in enumerate(outs):
            if isinstance(v, Exc):
                g = contract.exc(c, s, v)
                if g is None:
                    eng.oblige("no-exception:%s" % v.cls, s, z3.BoolVal(False),
                               v.line, "exc")
                else:
                    for lab, goal in g:
                        eng.oblige("raises:%s:%s" % (v.cls, lab), s, goal, v.line, "exc")
                continue
            nret += 1
            for lab, goal in contract.post(c, s, v):
                eng.oblige(lab, s, goal, None, "post")
        if nret and eng.check(outs[[i for i, o in enumerate(outs) if not isinstance(
                o[1], Exc)][0]][0].pc, z3.BoolVal(False), 1.0)[0] == "unsat" and nret == 1:
            res["notes"].append("single return path is infeasible")
        for o in eng.obligs:
            discharge(eng, o, contract.timeout)
            d = {"name": o.name, "line": o.line, "kind": o.kind,
                 "status": o.status, "t": round(o.t, 3), "backend": o.backend}
            if o.status != "proved":
                if o.model is not None:
                    d["model"] = str(o.model)[:3000]
                d["goal"] = str(o.goal)[:1500]
                if verbose:
                    print("FAILED", o.name, o.line, o.status, file=sys.stderr)
            res["obligations"].append(d)
            if o.status != "proved" and not discharge_all:
                break
    except Unsupported as ex:
        res["unsupported"] = str(ex)
        if verbose:
            traceback.print_exc()
    except RecursionError as ex:
        res["unsupported"] = "recursion limit"
    except Exception as ex:
        res["unsupported"] = "internal: %s: %s" % (type(ex).__name__, ex)
        if verbose or os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    res["inlined"] = sorted(eng.inlined)
    res["used_contracts"] = sorted(eng.used_contracts)
    res["assumed"] = sorted(eng.assumed)
    res["notes"] += sorted(eng.notes)
    res["dropped"] = sorted(set(eng.dropped))
    res["queries"] = eng.queries
    res["solver_s"] = round(eng.solver_time, 3)
    res["wall_s"] = round(time.time() - t0, 3)
    return res


def _worker(args, conn):
    prog, contract, case, contracts, mem = args
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    try:
        r = run_case(prog, contract, case, contracts)
    except BaseException as ex:
        r = {"target": contract.target, "contract": type(contract).__name__,
             "case": case, "obligations": [], "inlined": [], "used_contracts": [],
             "assumed": [], "notes": [], "dropped": [], "queries": 0, "solver_s": 0,
             "paths": 0, "wall_s": 0,
             "unsupported": "worker: %s" % type(ex).__name__}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(prog, jobs, contracts, procs=8, mem=4 << 30, deadline=None):
    """jobs: [(contract, case)]; each in its own forked process"""
    ctx = multiprocessing.get_context("fork")
    todo = list(jobs)
    running = []
    out = []
    while todo or running:
        if deadline and time.time() > deadline:
            out += [_dead(con, case, "time limit") for con, case in todo]
            todo = []
        while todo and len(running) < procs:
            con, case = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=((prog, con, case, contracts, mem), b))
            p.start()
            b.close()
            running.append((p, a, con, case, time.time()))
        nxt = []
        for p, a, con, case, t in running:
            if a.poll(0.02):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(_dead(con, case, "worker died"))
                p.join()
            elif not p.is_alive():
                if a.poll(0.2):
                    try:
                        out.append(a.recv())
                    except EOFError:
                        out.append(_dead(con, case, "worker died"))
                else:
                    out.append(_dead(con, case, "worker died"))
                p.join()
            elif time.time() - t > con.budget * 4 + 120 or (deadline and time.time() > deadline):
                p.kill()
                p.join()
                out.append(_dead(con, case, "time limit"))
            else:
                nxt.append((p, a, con, case, t))
        running = nxt
    return out


def _dead(con, case, why):
    return {"target": con.target, "contract": type(con).__name__, "case": case,
            "obligations": [], "inlined": [], "used_contracts": [], "assumed": [],
            "notes": [], "dropped": [], "queries": 0, "solver_s": 0, "paths": 0,
            "wall_s": 0, "unsupported": why}
