#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table PROPS (committed output; run after editing)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS
from props import PROPS, NA
def mech(l):
    return [dict(name=a, where=b) for a, b in l]
out, checks = [], []
for p in PROPS:
    if p["id"] not in CHECKS and p["id"] not in NA:
        continue
    d = dict(id=p["id"], title=p["title"], statement=p["statement"],
             quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
             anchors=dict(files=p["files"], mechanism=mech(p["mech"]), observe_at=p["observe"], hook_needed=None))
    out.append(d)
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                           technique=p["technique"], level=c["level"], level_note=p["note"]))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks: every check drives the public interfaces of the unmodified sources, rebuilt from /repo's working tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = "/root/.vp/"
    for d in out:
        jsonschema.validate(d, json.load(open(S + "PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
except ImportError:
    print("(no jsonschema)")
for d in out:
    assert len(d["title"]) <= 80, d["id"]
    assert len(re.findall(r"[.!?](\s|$)", d["statement"])) <= 3, (d["id"], "statement too long")
print(len(out), "properties", len(checks), "checks")
