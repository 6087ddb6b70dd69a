import json, sys
for p in sys.argv[1:]:
    d = json.load(open("/verif/evidence/%s.json" % p))
    for i in sorted(d["coverage"]["instances"], key=lambda i: -i["wall_s"])[:12]:
        print(p, i["wall_s"], i["paths"], i["queries"], i["harness"], i["params"])
