#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from claims.py"""
import json, os
import meta
import rules

H = os.path.dirname(os.path.abspath(__file__))
allp = {}
for pid, d in list(meta.META.items()) + list(meta.NA.items()):
    assert pid not in allp, pid
    assert len(d["title"]) <= 80, (pid, len(d["title"]))
    allp[pid] = {
        "id": pid, "title": d["title"], "statement": d["statement"],
        "quantifier": {"over": d["over"], "text": d["text"]},
        "why_tests_cant": d["why"],
        "anchors": {"files": meta.F, "state": [{"name": a, "meaning": b} for a, b in d["state"]], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]},
    }
    if not d["state"]:
        allp[pid]["anchors"].pop("state")
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for pid in sorted(allp):
        f.write(json.dumps(allp[pid]) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": [], "not_applicable": []}
for pid in sorted(meta.META):
    d = meta.META[pid]
    assert pid in rules.PROPS, pid
    man["checks"].append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --thorough", "technique": "static analysis: " + d["technique"], "level": d["level"], "level_note": d["note"]})
for pid in sorted(meta.NA):
    man["not_applicable"].append({"property": pid, "reason": meta.NA[pid]["reason"]})
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in allp.values():
        jsonschema.validate(p, sc)
except ImportError:
    print("not validated (run with python3-vt)")
print(len(meta.META), "claimed,", len(meta.NA), "not applicable; unclaimed rules:", sorted(set(rules.PROPS) - set(meta.META)))
