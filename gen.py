#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props/*.json (one file per property)."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
bins = dict(l.split() for l in open(here + "/mc/bins.txt") if l.strip())
props, checks, na = [], [], []
for f in sorted(glob.glob(here + "/props/*.json")):
    p = json.load(open(f))
    c = p.pop("check", None)
    assert len(p["title"]) <= 80, p["id"]
    props.append(p)
    if c and p["id"] in bins:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash run.sh {p['id']} --tier quick",
            "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
            "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": p.pop("na", "not claimed: no check built yet")})
D = open(here + "/design/head.md").read()
for f in sorted(glob.glob(here + "/props/*.json")):
    p = json.load(open(f)); c = p.get("check")
    D += f"\n### {p['id']}: {p['title']}\n\n{p['statement']}\n\n"
    D += f"* For all: {p['quantifier']['text']}\n* Beyond tests: {p['why_tests_cant']}\n"
    if c and p["id"] in bins:
        D += f"* Decided by: {c['technique']} (`mc/src/bin/{bins[p['id']]}.rs`)\n* Space and bounds: {c['note']}\n"
    else:
        D += f"* Not claimed: {p.get('na', 'no check built yet')}\n"
D += "\n" + open(here + "/design/tail.md").read()
res = json.load(open(here + "/design/seeded_results.json")) if os.path.exists(here + "/design/seeded_results.json") else {}
D += "\n## Planted bugs\n\nEach compiles, passes the 887 stable tests, and has a demonstration (`seeded/<id>/`).\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    D += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |\n"
open(here + "/DESIGN.md", "w").write(D)
open(here + "/properties.jsonl", "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is a bounded exhaustive exploration of the real crates (path dependencies on /repo); see DESIGN.md. No hooks are compiled into /repo."}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(props), "properties", len(checks), "checks")
