import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f"/verif/evidence/{p}.json"))
    c = d["coverage"]
    print(p, d["wall_s"], "cases", c["case_seconds"])
    print("   ", {k: v for k, v in c["worst_error_over_tolerance"].items()})
