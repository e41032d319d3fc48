#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {"C22": "cost (time, memory) is not a value of the symbolic state: the encoding decides what the code "
             "returns, not how long CPython takes; a count of executed statements under the engine would not be "
             "the cost of the real code"}
TECH = "symbolic execution of the real Python source (own engine, guarded merging) with z3; solver models replayed on the real code"
NOTE = ("Every input within the stated bounds is decided by z3 on the current source (the evidence lists functions, "
        "bounds, queries and solver time); counterexamples count only when the real code reproduces them. "
        "Trusts: the engine's models of json, xml.etree, base64, zlib, gzip, re, os, pathlib and open (each validated by "
        "replaying solver models on the real code), and z3. Nothing is claimed beyond the bounds; a case the engine "
        "cannot encode after a change is named as inconclusive in the evidence, and only the inputs the solver "
        "picked for it are then replayed.")
rows = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for r in rows:
    i = r["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3-vt run.py --property %s --tier quick" % i,
        "thorough_cmd": "python3-vt run.py --property %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH, "level": "model_checking", "level_note": NOTE})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
