#!/usr/bin/env python3
"""mkprop.py ID <<< fields: title / statement / over / text / why / files (comma) / mech (name@where; ...) / note"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = {}
for l in sys.stdin.read().splitlines():
    if ": " in l:
        k, v = l.split(": ", 1)
        f[k.strip()] = v.strip()
assert len(f["title"]) <= 80, len(f["title"])
d = {"title": f["title"], "statement": f["statement"], "quantifier": {"over": f.get("over", "inputs").split(","), "text": f["text"]},
     "why_tests_cant": f["why"], "anchors": {"files": [x.strip() for x in f["files"].split(",")],
     "mechanism": [dict(zip(("name", "where"), [y.strip() for y in x.split("@")])) for x in f["mech"].split(";")]}, "note": f["note"]}
for k in ("technique", "level"):
    if k in f:
        d[k] = f[k]
os.makedirs("%s/harness/%s" % (R, sys.argv[1]), exist_ok=True)
json.dump(d, open("%s/harness/%s/prop.json" % (R, sys.argv[1]), "w"), indent=1)
