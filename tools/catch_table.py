"""Print the table of planted bugs for DESIGN.md from the records of `plant.py try` (tools/catch_table.py RECORD.jsonl ...)"""

import json
import os
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def main():
    best = {}
    for f in sys.argv[1:]:
        for line in open(f):
            d = json.loads(line)
            for c, v in d.get("checks", {}).items():
                hit = sorted({t.strip().split(" ")[0] for t in v["tail"] if t.startswith("  ") and "|" not in t})
                if v["rc"] == 1 and v["n_violation_lines"]:
                    best.setdefault(d["id"], {})[c] = hit[:1]
                else:
                    best.setdefault(d["id"], {}).setdefault(c, None)
    print("| planted bug | needs | caught by |\n|---|---|---|")
    for i in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        by = ["%s `%s`" % (c, (o or ["yes"])[0]) for c, o in best.get(i, {}).items() if o is not None]
        print("| %s | %s | %s |" % (i, m["needs"], ", ".join(by) or "**missed**"))


if __name__ == "__main__":
    main()
