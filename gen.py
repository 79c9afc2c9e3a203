#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from vp/specs.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import specs as S
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in S.PROPS.values():
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=[p["observe"]]))) + "\n")
checks = []
for p in S.PROPS.values():
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
        technique="runtime monitoring: seeded workloads (%s) drive the real code under ASan+UBSan while an independent oracle checks every execution" % ", ".join(r["mode"] for r in p["runs"]),
        level="exploration", level_note="held on every execution observed (counts in the evidence file); not a proof. " + (p["note"] or S.SAN)))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=S.NA if hasattr(S, "NA") else [],
    notes="no hooks in /repo: harnesses link the library objects built from /repo's working tree; 'fix:' commits are listed in known_findings.jsonl"),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for sch, objs in (("/root/.vp/MANIFEST.schema.json", [json.load(open(os.path.join(V, "MANIFEST.json")))]),
                  ("/root/.vp/PROPERTIES.schema.json", [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))])):
    try:
        import jsonschema
        for o in objs: jsonschema.validate(o, json.load(open(sch)))
    except ImportError:
        pass
print(len(checks), "properties")

# ---- DESIGN.md ----
import subprocess
ns = {}; exec(open(os.path.join(V, "design_props.py")).read(), ns)
o = open(os.path.join(V, "design_head.md")).read()
o += "\n## Properties\nModes are given as harness/mode with the number of cases of a quick run (thorough: 20 times as many).\n"
for p in S.PROPS.values():
    g, orc, b = ns["D"].get(p["id"], ("", "", ""))
    o += "\n### %s %s\n" % (p["id"], p["title"])
    if p["id"] != "C33":
        o += "* Runs: %s\n" % ", ".join("%s/%s %d" % (r["harness"], r["mode"], r["n"][0]) for r in p["runs"])
    else:
        o += "* Runs: all modes of the other properties, about an eighth of the cases, with leak scans\n"
    o += "* Workload: %s.\n* Oracle: %s.\n" % (g, orc)
    if b or p["note"]:
        o += "* Bounds: %s.\n" % "; ".join(x for x in (b, p["note"]) if x)
o += "\n" + open(os.path.join(V, "design_tail.md")).read()
o += "\n## Planted bugs\nSeeded (kept in `seeded/`, each with a demonstration):\n\n| id | property | needs |\n|---|---|---|\n"
sd = os.path.join(V, "seeded")
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    o += "| %s | caught by %s | %s |\n" % (n, m["property"], m["needs"].replace("|", "/"))
o += "\n" + open(os.path.join(V, "design_hand.md")).read()
o += "\n## Defects found and repaired\n"
for l in open(os.path.join(V, "known_findings.jsonl")):
    o += "* %s\n" % json.loads(l)["what"].replace("fixed: property=", "")
open(os.path.join(V, "DESIGN.md"), "w").write(o)
