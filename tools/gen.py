"""writes properties.jsonl and MANIFEST.json from props_data and registry"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
from props_data import P
import props_data
from registry import PROPS, LEVELS
NA = getattr(props_data, "NA", {})
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] in PROPS:
        checks.append({
            "property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
            "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "technique": "contracts on the real functions, verification conditions generated from /repo's AST on every "
                         "run and discharged by z3/cvc5; bounded execution of the same contracts for replay",
            "level": LEVELS.get(p["id"], "proof"),
            "level_note": p["note"] or "Every obligation of the contracted functions is proved for all inputs and "
                          "iterations. Trusted: the VC generator pyvc, z3/cvc5, Jython's parser; ints mathematical, "
                          "floats real; element equality lawful and pure."})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "claimed")
