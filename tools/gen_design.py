"""Write DESIGN.md from its parts: design_head.md, design_text.py, properties, design_tail.md."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
ns = {}
exec(open(os.path.join(HERE, "design_text.py")).read(), ns)
P, MORE, COST = ns["P"], ns["MORE"], ns["COST"]
out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), ""]
for line in open(os.path.join(TOP, "properties.jsonl")):
    p = json.loads(line)
    kind, monitored, oracle, bounds, why = P[p["id"]]
    if p["id"] in MORE:
        bounds += " " + MORE[p["id"]]
    q, t = COST[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "",
            "* **Specified:** %s" % p["statement"],
            "* **Monitor (%s):** %s" % (kind, monitored),
            "* **Oracle:** %s" % oracle,
            "* **Generated, bounds:** %s" % bounds,
            "* **Cost:** about %s s quick, %s s thorough on 8 cores." % (q, t),
            "* **What tests cannot reach:** %s" % why, ""]
rows = [tuple(line.rstrip("\n").split("\t")) for line in open(os.path.join(HERE, "planted.tsv"))]
table = "\n".join("| %s | %s | %s | %s |" % r for r in rows)
tail = open(os.path.join(HERE, "design_tail.md")).read().rstrip()
out += [tail.replace("%(SEEDED)s", table), ""]
open(os.path.join(TOP, "DESIGN.md"), "w").write("\n".join(out))
