# runner: jython2 run.py PROPERTY TIER SEED SECONDS OUT.json [REPLAY.json]
import sys, os, json, time, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from base import *

CASE_LIMIT = 90.0


class Cur(object):
    group = None
    case = None
    t = None


def viol(g, case, v):
    d = {"group": g.name, "case": repr(case), "what": v.what,
         "expected": v.expected, "got": v.got}
    return d


def finish(res, out):
    f = open(out, "w")
    f.write(json.dumps(res, encoding="latin-1"))
    f.close()
    sys.stdout.flush()
    os._exit(0)


def main(argv):
    prop, tier, seed, secs, out = argv[1], argv[2], int(argv[3]), float(argv[4]), argv[5]
    replay = argv[6] if len(argv) > 6 else None
    res = {"property": prop, "groups": [], "violation": None, "known": [], "error": None}
    import tempfile, shutil
    scratch = tempfile.mkdtemp(prefix="rt_%s_" % prop)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    realout = sys.stdout
    # before the imports: default arguments of the code under test hold on to it
    sys.stdout = open(os.devnull, "w")

    def watch():
        while True:
            time.sleep(1)
            t = Cur.t
            if t is not None and time.time() - t > CASE_LIMIT:
                res["violation"] = {"group": Cur.group.name, "case": repr(Cur.case),
                                    "what": "does not terminate (stopped after %d s)" % CASE_LIMIT,
                                    "expected": "termination", "got": "still running"}
                shutil.rmtree(scratch, True)
                finish(res, out)
    th = threading.Thread(target=watch)
    th.setDaemon(True)
    th.start()
    try:
        try:
            mod = __import__(prop.lower())
        except Exception, e:
            # the code under test cannot even be imported
            res["violation"] = {"group": "import", "case": "()", "what": "import failed: %s: %s" % (
                e.__class__.__name__, e), "expected": "import succeeds",
                "got": traceback.format_exc()[-1500:]}
            return
        groups = dict((g.name, g) for g in mod.GROUPS)

        def one(g, case):
            Cur.group, Cur.case, Cur.t = g, case, time.time()
            try:
                g.check(*case)
                return None
            except Violation, v:
                return viol(g, case, v)
            except (KeyboardInterrupt, SystemExit), e:
                return viol(g, case, Violation("unexpected exit: %s" % e))
            except Exception, e:
                return viol(g, case, Violation("unexpected %s: %s" % (
                    e.__class__.__name__, e), "no exception", traceback.format_exc()[-1200:]))
            finally:
                Cur.t = None
        if replay:
            d = json.load(open(replay))
            g = groups[d["violation"]["group"]]
            case = eval(d["violation"]["case"])
            res["violation"] = one(g, case)
            return
        R_ = R(tier, seed)
        total = sum(g.share for g in mod.GROUPS)
        t0 = time.time()
        used = 0.0
        for g in mod.GROUPS:
            used += g.share
            dl = t0 + secs * used / total
            n, seen, samples = 0, set(), []
            complete = True
            tg = time.time()
            for case in g.gen(R_):
                if n and time.time() > dl:
                    complete = False
                    break
                v = one(g, case)
                n += 1
                key = repr(case)
                if len(seen) < 200000:
                    seen.add(hash(key))
                if len(samples) < 2 or n in (50, 500):
                    samples.append(key[:300])
                if v is not None:
                    res["violation"] = v
                    break
            res["groups"].append({"name": g.name, "bound": g.bound, "evaluations": n,
                                  "distinct": len(seen), "complete": complete and res["violation"] is None,
                                  "samples": samples, "s": round(time.time() - tg, 2)})
            if res["violation"]:
                return
    except Exception, e:
        res["error"] = traceback.format_exc()[-2000:]
    finally:
        sys.stdout = realout
        os.chdir("/")
        shutil.rmtree(scratch, True)
        finish(res, out)


main(sys.argv)
