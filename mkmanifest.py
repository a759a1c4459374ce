#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from plan import PARTS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PARTS:
        n = NOTES[i]
        checks.append(dict(
            property=i, quick_cmd="python3 check.py run %s --tier quick" % i, thorough_cmd="python3 check.py run %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: " + n["technique"], level="exploration",
            level_note="Seeded search over " + n["space"] + "; variants " + ", ".join(x["variant"] for x in PARTS[i])
            + ". A pass means no violation in the runs counted in the evidence, not a proof. Trusted: " + "; ".join(n["assumptions"]) + "."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo: all seams are at link level (--wrap), libsodium's pluggable generator and compiler instrumentation of the checks' own build.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
