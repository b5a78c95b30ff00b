#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/properties.py."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.path.insert(0, root)
import properties as P  # noqa: E402
import properties_na  # noqa: E402,F401

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["id"]
        d["quantifier"] = {"over": p["over"], "text": p["forall"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "mechanism": [
            {"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    m = importlib.import_module("checks." + p["id"].lower())
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "technique": p["tech"], "level": "other",
        "level_note": p["note"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash tool/build.sh",
               "checks": checks, "not_applicable": na,
               "notes": "Static analysis only: a clang-18 libTooling fact "
               "extractor (tool/) plus abstract interpretation and dataflow "
               "rules in Python (dp3a/, checks/). No code of /repo is run."},
              f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
