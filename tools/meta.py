#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
from props import PROPS, NOT_APPLICABLE  # noqa: E402

with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS + [n for (n, _) in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "hook_needed": p.get("hook")},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [{
        "property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "technique": p.get("technique", "TLA+ specification checked with TLC; histories of the real code validated against it"),
        "level": "model_checking", "level_note": " ".join(p["note"].split()),
    } for p in PROPS],
    "not_applicable": [{"property": n["id"], "reason": r} for (n, r) in NOT_APPLICABLE],
}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

d = open(f"{V}/tools/design.md").read()
props = []
for p in PROPS:
    props.append(f"### {p['id']}: {p['title']}\n\n*Files:* {', '.join('`%s`' % x for x in p['files'])}\n\n"
                 f"*Over:* {' '.join(p['text'].split())}\n\n*Decided by:* {' '.join(p['note'].split())}\n\n"
                 f"*What tests can't:* {' '.join(p['why'].split())}\n"
                 + (f"\n*Specification, bounds and cost:* {' '.join(p['spec'].split())}\n" if p.get("spec") else ""))
na = [f"* {n['id']} {n['title']}: {r}" for n, r in NOT_APPLICABLE] or ["Nothing so far."]
fnd = ["* " + x.strip() for x in open(f"{V}/known-findings.txt") if x.startswith(("fixed:", "finding:"))]
res = json.load(open(f"{V}/tools/seeds.json")) if os.path.exists(f"{V}/tools/seeds.json") else {}
seeds = ["| id | property | what it breaks | needs | check |", "|---|---|---|---|---|"]
for sid in sorted(os.listdir(f"{V}/seeded")):
    mt = f"{V}/seeded/{sid}/meta.json"
    if os.path.exists(mt):
        x = json.load(open(mt))
        seeds.append(f"| {sid} | {x['property']} | {x['what_it_breaks']} | {x['needs']} | {res.get(sid, '?')} |")
for k, v in (("PROPERTIES", props), ("NA", na), ("FINDINGS", fnd), ("SEEDS", seeds)):
    d = d.replace(f"@@{k}@@", "\n".join(v))
open(f"{V}/DESIGN.md", "w").write(d)
