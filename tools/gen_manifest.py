#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per checks/CXX.py; everything else is listed as not applicable with its reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(f"{V}/tools/manifest_notes.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(f"{V}/checks/{i}.py"):
        checks.append(dict(property=i, quick_cmd=f"checks/{i}.py", thorough_cmd=f"checks/{i}.py --thorough",
            technique="contract-based deductive verification of the real code: contracts over LLVM IR compiled from /repo on every run, verification conditions discharged by z3/cvc5" + NOTES["technique"].get(i, ""),
            level=NOTES["level"].get(i, "proof"), level_note=NOTES["note"][i]))
    else: na.append(dict(property=i, reason=NOTES["na"].get(i, NOTES["na"]["default"])))
json.dump(dict(version=1, setup_cmd="python3-vt tools/selfcheck.py", checks=checks, not_applicable=na), open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
