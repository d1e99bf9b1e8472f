#!/usr/bin/env python3
"""Writes MANIFEST.json from vc/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vc")
import registry
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = registry.PROPS.get(i)
    if p is None or not p.get("claimed", True):
        na.append(dict(property=i, reason=(p or {}).get("reason", "check under construction")))
        continue
    n = len(p.get("contracts", []))
    level = "proof" if n else "exploration"
    tech = p.get("technique") or ("contract-based deductive verification of the extracted C++ functions (z3, cvc5)" +
                                  ", with bounded runs of the compiled code for the parts out of reach" if n else
                                  "bounded runs of the compiled code against an independent oracle")
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i}",
                       evidence_file=f"evidence/{i}.json", technique=tech, level=level, level_note=p["level_note"]))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="QLEVER_VERIF", enable="no hooks: the checks read and compile the sources unmodified", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Each check builds what it needs itself; setup.sh only warms the front end. Defects found and fixed are listed in known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
