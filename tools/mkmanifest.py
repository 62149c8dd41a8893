#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from catalog import CATALOG
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CATALOG:
        n = len(CATALOG[i]["entries"])
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the LLVM IR of /repo's code, Z3 deciding every path",
            level="model_checking",
            level_note="Every path of %d harness entry point(s) within the bounds listed in the evidence, all input "
                       "values symbolic; panics, memory errors and oversized allocations included. Trusts rustc's IR, "
                       "the engine in engine/ (validated against native runs each time) and Z3; nothing is claimed "
                       "outside the bounds." % n))
    else:
        na.append(dict(property=i, reason="not built yet"))
m = dict(version=1,
         setup_cmd="python3 tools/setup.py",
         checks=checks, not_applicable=na,
         notes="Harness crates in harness/ (symbolic) and replay/ (native) use /repo's crates by path; no hooks in /repo are needed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
