#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py and lib/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
from props import P
from specs import SPECS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i,
                           thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=s["technique"], level=s.get("level", "exploration"), level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 bin/check.py --setup",
         hooks=dict(guard="VITAL_VERIF_HOOKS", enable="no hook is needed: the checks compile /repo's own sources with sanitizers and observe public behaviour; the define is reserved and unused", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. Checks compile /repo's current tree with a content-addressed object cache under /verif/build (ignored by git).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "claimed,", len(na), "not")

# ---- DESIGN.md -------------------------------------------------------------------------------
def lines(path):
    return [l.rstrip("\n") for l in open(os.path.join(V, path))] if os.path.exists(os.path.join(V, path)) else []
known = lines("known_findings.txt")
cf = os.path.join(V, "lib", "catches.json")
catches = json.load(open(cf)) if os.path.exists(cf) else {}
out = [open(os.path.join(V, "lib", "design_head.md")).read()]
for p in P:
    i = p["id"]
    out.append("### %s  %s\n\n%s\n" % (i, p["title"], p["statement"]))
    s = SPECS.get(i)
    if not s:
        out.append("Not claimed: %s\n" % NOT_APPLICABLE.get(i, "no check built yet"))
        continue
    out.append("* **Decided by**: %s. %s" % (s["technique"], s["note"]))
    for g in s["stages"]:
        src = ", ".join(g["src"]) if "src" in g else "%s.%s" % (g.get("module"), g.get("func"))
        out.append("* **Stage %s** (%s, %s): %s cases quick, %s thorough; must observe %d kinds of event." %
                   (g["name"], src, g.get("variant", "asan"), g["quick"], g["thorough"], len(g["must"])))
    out.append("* **Counting**: %s." % s["rule"])
    out.append("* **Bounds and assumptions**: %s." % "; ".join(s["assumptions"]))
    out.append("* **Why tests cannot**: %s." % p["why_tests_cant"].rstrip("."))
    f = [l for l in known if " property=%s " % i in l]
    if f:
        out.append("* **Defects found**:")
        for l in f:
            if l.startswith("fixed:"):
                _, _, h, t = l.split(" ", 3)
                out.append("  * repaired in %s: %s" % (h, t))
            else:
                out.append("  * recorded, not repaired: %s" % l.split(" ", 2)[2])
    c = [(k, v) for k, v in sorted(catches.items()) if v["property"] == i]
    if c:
        out.append("* **Planted bugs**: " + "; ".join("`%s` %s%s" % (k, v["result"], " (%s)" % v["key"] if v["key"] else "") for k, v in c) + ".")
    out.append("")
tail = os.path.join(V, "lib", "design_tail.md")
if os.path.exists(tail): out.append(open(tail).read())
n = sum(v["result"] == "caught" for v in catches.values())
out.append("## Planted bugs\n\n%d kept, %d caught by the check of the property they break (quick tier, seed 1); listed with each property above.\n" % (len(catches), n))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out).rstrip() + "\n")
