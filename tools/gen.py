#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like python dicts (one place to keep them in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.propdata import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
           "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 -m sa.prep", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
import importlib, re
from tools.designtext import TEXT
kf = [l.strip() for l in open(os.path.join(root, "known_findings.txt")) if l.strip() and not l.startswith("#")]
out = [open(os.path.join(root, "tools/design_head.md")).read()]
for p in PROPS:
    m = importlib.import_module("sa.rules." + p["id"].lower())
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    out.append("*Rule.* " + " ".join(m.RULE.split()) + ".\n")
    out.append("*Technique.* " + p["technique"] + ". " + TEXT.get(p["id"], "") + "\n")
    out.append("*Assumes.* " + "; ".join(getattr(m, "ASSUME", ())) + ".\n")
    out.append("*Limits.* " + p["note"] + "\n")
    fx = [re.match(r"fixed: property=\S+ (\S+) (.*)", l).groups() for l in kf if l.startswith("fixed: property=%s " % p["id"])]
    kn = [re.match(r"known: property=\S+ key=(.*?) :: (.*)", l).groups() for l in kf if l.startswith("known: property=%s " % p["id"])]
    if fx: out.append("*Genuine defects it found, repaired.* " + "; ".join("%s (%s)" % (b, a) for a, b in fx) + ".\n")
    if kn: out.append("*Genuine defects recorded, not repaired.*\n" + "".join("\n- `%s`: %s" % k for k in kn) + "\n")
out.append("## Not applicable\n")
for p in NA: out.append("- **%s %s.** %s" % (p["id"], p["title"], p["reason"]))
out.append("\n## Planted changes\n\nEach keeps the 301 tests passing and has a demonstration; the table says which check catches it.\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    f = os.path.join(root, "seeded", s, "meta.json")
    if os.path.exists(f):
        d = json.load(open(f))
        out.append("| %s | %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), d["property"]))
out.append("\n" + open(os.path.join(root, "tools/design_tail.md")).read())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
