#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("The specification's design invariants are model-checked exhaustively on small domains; the code is bound to it by judging "
        "with TLC recorded calls of the real code on every exported model case and on seeded random, larger and odd inputs. "
        "Assurance is for the inputs explored; trusted: TLC, the rational-number operators (self-tested against TLA+ integers), the recording harness.")
notes = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python harness/run.py %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python harness/run.py %s --tier thorough" % i,
            "technique": "TLA+ specification model-checked with TLC; recorded behaviour of the real code judged against it by TLC",
            "level": "model_checking",
            "level_note": notes.get(i, NOTE),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python harness/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every observable is part of the public API. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "missing", [x["property"] for x in na])
