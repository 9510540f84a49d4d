"""Rewrites properties.jsonl and MANIFEST.json from catalog.py (only properties whose module exists are claimed)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog

have = set(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "sa", "props")) if f.startswith("c") and f.endswith(".py"))
na = dict((n["id"], n) for n in getattr(catalog, "NA", []))
checks, nas = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in catalog.P:
        if p["id"] not in have and p["id"] not in na:
            print("not built yet:", p["id"])
            continue
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b} for a, b in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
        if p["id"] in na:
            nas.append({"property": p["id"], "reason": na[p["id"]]["reason"]})
        else:
            cmd = "python3 -m sa.check %s --tier %%s" % p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd % "quick", "thorough_cmd": cmd % "thorough", "technique": p["technique"], "level": "other", "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "python3 -c \"import sa.check\"", "checks": checks, "not_applicable": nas,
       "notes": "All checks read /repo/histbook/*.py and decide by abstract interpretation of the source; nothing of the package is imported or executed. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(nas), "not applicable")

# section 3 of DESIGN.md
import ast
sec = []
for p in catalog.P:
    sec.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] in na:
        sec.append("Not applicable: %s\n" % na[p["id"]]["reason"])
        continue
    if p["id"] not in have:
        continue
    vals = {}
    for n in ast.parse(open(os.path.join(ROOT, "sa", "props", p["id"].lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("EXPLAIN", "ASSUME"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    sec.append("*Decided by* (%s): %s.\n" % (p["technique"], vals["EXPLAIN"].rstrip(".")))
    sec.append("*Covers*: %s. *Beyond tests*: %s" % (p["text"], p["why"]))
    sec.append("*Assumes*: %s.\n" % "; ".join(vals.get("ASSUME", [])) if vals.get("ASSUME") else "")
d = os.path.join(ROOT, "DESIGN.md")
t = open(d).read()
a, b = t.index("<!-- properties -->"), t.index("<!-- /properties -->")
open(d, "w").write(t[:a] + "<!-- properties -->\n" + "\n".join(sec) + "\n" + t[b:])
