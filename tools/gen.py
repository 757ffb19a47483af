"""writes properties.jsonl and MANIFEST.json from tools/table.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import P, TECH

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Sound for the modelled subset: a discharged obligation means implementation and reference semantics have the same normal form under real/complex arithmetic for all inputs; "
        "trusted are the library model, the normal-form rules and the reference semantics in specs/. Constructs the model does not interpret are reported UNDECIDED (exit 0), never as violations.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        assert len([s for s in q["statement"].split(". ") if s]) <= 3, q["id"]
        fh.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["qtext"]},
                             "why_tests_cant": q["why"], "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "observe_at": q["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for q in P:
    if q["na"]:
        na.append({"property": q["id"], "reason": q["na"]})
    else:
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s" % q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                       "technique": q["tech"] or TECH, "level": "other", "level_note": q["note"] or NOTE})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q nidnsa check.py", "checks": checks, "not_applicable": na}, fh, indent=1)
    fh.write("\n")
