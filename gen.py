#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from meta/props.py.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "meta"))
sys.dont_write_bytecode = True
from props import P
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids)), "duplicate ids"
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for p in sorted(P, key=lambda p: p["id"]):
    if "reason" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash check %s quick" % p["id"],
            "technique": p["technique"],
            "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")

for p in P:
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
d = os.path.join(here, "DESIGN.md")
if os.path.exists(d):
    t = open(d).read()
    b, e = "<!-- generated by gen.py -->", "<!-- end -->"
    out = [b, ""]
    for p in sorted(P, key=lambda p: p["id"]):
        if "reason" in p:
            out.append("**%s %s** (not applicable). %s\n" % (p["id"], p["title"], p["reason"]))
        else:
            out.append("**%s %s.** Method: %s. %s\n" % (p["id"], p["title"], p["technique"], p["note"]))
    t = t[:t.index(b)] + "\n".join(out) + t[t.index(e):]
    open(d, "w").write(t)
