#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/table.py and checks/."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "checks"), os.path.join(V, "lib")]
import table  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in table.P:
        a = dict(files=p["files"],
                 mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            a["observe_at"] = p["observe"].split(", ")
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=a)) + "\n")

checks, na = [], []
for p in table.P:
    path = os.path.join(V, "checks", "c_%s.py" % p["id"].lower())
    if p["na"] or not os.path.exists(path):
        na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
        continue
    m = importlib.import_module("c_" + p["id"].lower())
    checks.append(dict(
        property=p["id"],
        quick_cmd="python3 check.py %s --quick" % p["id"],
        thorough_cmd="python3 check.py %s --thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=getattr(m, "TECHNIQUE",
                          "TLA+ specification checked with TLC; TLC-generated behaviours "
                          "replayed into the code and recorded traces validated against it"),
        level=getattr(m, "LEVEL", "model_checking"),
        level_note=getattr(m, "NOTE",
                           "Exhaustive on the bounded specification; conformance of the code is "
                           "decided on the replayed and recorded executions.")))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
                   notes="TLA+ (TLC). See DESIGN.md."), f, indent=1)
    f.write("\n")
