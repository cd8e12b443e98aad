#!/usr/bin/env python3
"""mkprop.py: reads 'key: value' blocks (separated by a line '---') on stdin and writes props/<id>.json."""
import sys, json, os
here = os.path.dirname(os.path.abspath(__file__))
for blk in sys.stdin.read().split("\n---\n"):
    d = {}
    k = None
    for l in blk.strip("\n").split("\n"):
        if l and not l.startswith(" ") and ": " in l:
            k, v = l.split(": ", 1); d[k] = v
        elif k:
            d[k] += " " + l.strip()
    if "id" not in d: continue
    mech = [dict(zip(("name", "where"), m.strip().split(" @ "))) for m in d["mech"].split(";")]
    p = {"id": d["id"], "title": d["title"], "statement": d["statement"],
         "quantifier": {"over": d["over"].replace(",", " ").split(), "text": d["forall"]},
         "why_tests_cant": d["why"],
         "anchors": {"files": d["files"].replace(",", " ").split(), "mechanism": mech}}
    if "observe" in d: p["anchors"]["observe_at"] = [s.strip() for s in d["observe"].split(";")]
    if "technique" in d: p["check"] = {"technique": d["technique"], "note": d["note"]}
    if "na" in d: p["na"] = d["na"]
    json.dump(p, open(f"{here}/props/{p['id']}.json", "w"), indent=1, ensure_ascii=False)
    print(p["id"])
