#!/usr/bin/env python3
"""MANIFEST.json from bin/table.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from table import TABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        t = TABLE[i]
        checks.append(dict(property=i, quick_cmd="bin/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough bin/check.py %s" % i, evidence_file="evidence/%s.json" % i,
            technique=t.get("technique", "TLA+ specification: TLC model checking + TLC validation of traces recorded from the real code"),
            level=t["level"], level_note=t.get("note", "TLC checks the specification (%s) exhaustively on all small inputs; every recorded run of the real code must be a behaviour of it (%s)." % (", ".join(sorted({m["module"] for m in t.get("mc", [])})), t["trace"]))))
    else:
        na.append(dict(property=i, reason="not yet covered by a check in this version of the framework"))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
