"""writes MANIFEST.json from properties.jsonl, the check modules and NOT_APPLICABLE.json"""
import glob, importlib, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
checks, left = [], []
for i in ids:
    f = V + "/checks/%s.py" % i.lower()
    if os.path.exists(f) and i not in na:
        m = importlib.import_module("checks." + i.lower())
        note = "Every input within the bounds: %s. Outside: %s." % (m.BOUNDS, m.OUTSIDE)
        if getattr(m, "STUBS", ""):
            note += " Stand-ins: %s." % m.STUBS
        note += " Floats are modelled as real numbers (rounding outside the claim); trusts z3 and the numpy model in vlib/symnp.py, which replays on real numpy validate."
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i.lower(), thorough_cmd="./run.sh %s thorough" % i.lower(),
            evidence_file="evidence/%s.json" % i, technique="symbolic execution of the real Python code with z3 deciding each assertion on every path; counterexamples replayed on the real code",
            level="model_checking", level_note=note))
    else:
        left.append(dict(property=i, reason=na.get(i, "no check built yet")))
d = dict(version=1, setup_cmd="./tools/setup.sh", checks=checks, not_applicable=left,
    notes="No hooks in /repo. run.sh executes the current working tree of /repo (src on the path through the editable install); nothing is cached between runs.")
json.dump(d, open(V + "/MANIFEST.json", "w"), indent=1)
import subprocess
print(len(checks), "claimed;", [x["property"] for x in left])
