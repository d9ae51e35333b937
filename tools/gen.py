"""Writes properties.jsonl and MANIFEST.json from the table in meta.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from meta import NOT_APPLICABLE, P  # noqa

from props.index import PROPS  # noqa

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        rec = {k: p[k] for k in ("id", "title", "statement")}
        rec["quantifier"] = {"over": p.get("over", ["inputs"]), "text": p["quant"]}
        rec["why_tests_cant"] = p["why"]
        rec["anchors"] = {"files": p["files"], "mechanism": p["mech"]}
        fh.write(json.dumps(rec) + "\n")

checks = []
for p in P:
    if p["id"] not in PROPS:
        assert p["id"] in NOT_APPLICABLE, p["id"]
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bin/check {p['id']} quick",
        "thorough_cmd": f"bin/check {p['id']} thorough",
        "technique": p.get("tech", "symbolic execution of the real Python/Cython source, every path; "
                                   "Z3 decides each obligation; counterexamples replayed on the real code"),
        "level": "model_checking",
        "level_note": p["note"],
    })
man = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(P), "properties", len(checks), "checks")
