"""writes DESIGN.md from its parts"""
import importlib, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
exec(open(os.path.join(here, "tools", "design_how.py")).read())
out = [open(os.path.join(here, "tools", "design_head.md")).read()]
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    out.append("### %s %s\n" % (p["id"], p["title"]))
    f = os.path.join(here, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        why = [n["reason"] for n in json.load(open(os.path.join(here, "MANIFEST.json")))["not_applicable"] if n["property"] == p["id"]]
        out.append("Not applicable: %s\n" % why[0])
        continue
    m = importlib.import_module("checks." + p["id"].lower())
    n = {t: len(list(m.instances(t))) for t in ("quick", "thorough")}
    out.append(HOW[p["id"]].strip() + "\n")
    out.append("*Bounds:* %s.  *Outside:* %s." % (m.BOUNDS, m.OUTSIDE) + ("  *Stand-ins:* %s." % m.STUBS if getattr(m, "STUBS", "") else "") + "  *Instances:* %d quick, %d thorough.%s\n" % (n["quick"], n["thorough"], "  *Cost:* %s." % COST[p["id"]] if p["id"] in COST else ""))
tail = open(os.path.join(here, "tools", "design_tail.md")).read()
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("* `%s` (%s): %s. Needs: %s." % (d, m["property"], m["what_it_breaks"], m["needs"]))
out.append(tail.replace("SEEDED", "\n".join(rows)))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
