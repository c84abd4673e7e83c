#!/usr/bin/env python3
"""Rewrites properties.jsonl and MANIFEST.json from harness/*/prop.json and na.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for d in sorted(os.listdir(R + "/harness")):
    p = "%s/harness/%s/prop.json" % (R, d)
    if not os.path.exists(p):
        continue
    j = json.load(open(p))
    note = j.pop("note")
    vx = "vx" in open("%s/harness/%s/spec.py" % (R, d)).read()
    py = "python3-vt" if vx else "python3"
    both = vx and "QUERIES = [" in open("%s/harness/%s/spec.py" % (R, d)).read().replace("QUERIES = []", "")
    tech = j.pop("technique", "bounded symbolic execution of the C source with cbmc, SAT verdict, native replay" if not vx else ("bounded symbolic execution of the C source with cbmc (SAT) and " if both else "") + "symbolic execution of the LLVM IR over real-valued inputs, z3 verdict, native replay")
    level = j.pop("level", "model_checking")
    j = {"id": d, **j}
    props.append(j)
    checks.append({"property": d, "quick_cmd": py + " vp/run.py " + d, "thorough_cmd": "VERIF_TIER=thorough " + py + " vp/run.py " + d,
                   "technique": tech, "level": level, "level_note": note})
if os.path.exists(R + "/na.json"):
    for j in json.load(open(R + "/na.json")):
        na.append({"property": j["id"], "reason": j.pop("reason")})
        props.append(j)
props.sort(key=lambda x: x["id"])
with open(R + "/properties.jsonl", "w") as f:
    for j in props:
        f.write(json.dumps(j, sort_keys=False) + "\n")
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses include or link the decoder's own sources. See DESIGN.md."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for j in props:
        jsonschema.validate(j, s)
except ImportError:
    print("no jsonschema")
t = ["## Properties", ""]
for c in checks:
    d = c["property"]
    j = next(x for x in props if x["id"] == d)
    t += ["### %s %s" % (d, j["title"]), "", j["statement"], "",
          "- Over: " + j["quantifier"]["text"], "- How far: " + c["level_note"], "- Why tests cannot: " + j["why_tests_cant"],
          "- Code: " + ", ".join(j["anchors"]["files"]), ""]
if na:
    t += ["## Not applicable", ""] + ["- %s %s: %s" % (n["property"], next(x for x in props if x["id"] == n["property"])["title"], n["reason"]) for n in na] + [""]
s = open(R + "/DESIGN.md").read()
a, b = s.index("<!-- generated -->"), s.index("<!-- end -->")
open(R + "/DESIGN.md", "w").write(s[:a] + "<!-- generated -->\n" + "\n".join(t) + s[b:])
print(len(props), "properties", len(checks), "checks")
