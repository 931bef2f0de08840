#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, pathlib, sys
H = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(H / "tools"))
from props import PROPS
with open(H / "properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/pipeline.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                 "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]]}
(H / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
# DESIGN.md
import re
sys.path.insert(0, str(H / "lib")); sys.path.insert(0, str(H / "rules"))
from registry import PROPS as REG
import importlib
for f in sorted((H / "rules").glob("r_*.py")): importlib.import_module(f.stem)
t = (H / "tools" / "DESIGN.in.md").read_text()
out = []
for p in PROPS:
    if p["na"]: continue
    r = REG.get(p["id"])
    out.append(f"**{p['id']} {p['title']}.** {r.how} *Bounds:* {p['note']}. *Beyond tests:* {p['why']}")
t = t.replace("%PROPS%", "\n\n".join(out))
t = t.replace("%NA%", "\n".join(f"* {p['id']} {p['title']}: {p['na']}" for p in PROPS if p["na"]) or "None.")
kf = [l.strip() for l in (H / "known_findings.txt").read_text().splitlines() if l.startswith(("fixed:", "KNOWN"))]
def kfl(l):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: return f"* {m[1]} ({m[2]}, fixed) {m[3]}"
    m = re.match(r"KNOWN property=(\S+) key=(.*?) :: (.*)", l)
    return f"* {m[1]} (known, not repaired) {m[3]}"
t = t.replace("%FINDINGS%", "\n".join(map(kfl, kf)))
from seeds import SEEDS
t = t.replace("%SEEDS%", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(f"| {s['id']} | {s['property']} | {s['breaks']} | {s.get('caught', s['property'])} |" for s in SEEDS))
import refactors, mutants
t = t.replace("%NREF%", str(len(refactors.REFACTORS))).replace("%NMUT%", str(len(mutants.MUTANTS)))
(H / "DESIGN.md").write_text(t)
