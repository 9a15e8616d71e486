"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS DEMOFILE : write seeded/ID from a text replacement"""
import sys, os, subprocess, json, shutil
def make(i, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"
    subprocess.call(["rm", "-rf", w])
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in edits:
        p = os.path.join(w, f)
        t = open(p, encoding="utf8", newline="").read()
        assert t.count(old) >= 1, "not found in " + f
        open(p, "w", encoding="utf8", newline="").write(t.replace(old, new, 1))
    diff = subprocess.check_output(["git", "-C", w, "diff"])
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n. /opt/jy/env.sh\nexec jython2 \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.call(["rm", "-rf", w])
