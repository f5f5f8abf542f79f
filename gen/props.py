#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, technique=None,
         note=None, state=None, level="other"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                      why=why, files=files, mech=mech, technique=technique,
                      note=note, state=state, level=level))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append((id, reason))


exec(open(os.path.join(V, "gen", "table.py")).read())

TRUST = ("Assumes clang's front end and CFG, that the repository is compiled with "
         "the flags in its CMake files, and the standard library / pybind11 / Eigen "
         "models listed in DESIGN.md. ")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"],
             "mechanism": [{"name": m, "where": w} for m, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

nas = dict(NA)
checks = []
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["id"] in nas:
        continue
    assert os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")), p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"],
        "level_note": TRUST + p["note"]})
m = {"version": 1,
     "setup_cmd": "python3 prepare.py",
     "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA)],
     "notes": "All checks are static: they lower /repo's current sources with a libTooling "
              "dumper (tool/mdump.cpp), cached by content hash, and analyse the result in "
              "Python. Nothing of /repo is executed. No hooks are used."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "claimed")
