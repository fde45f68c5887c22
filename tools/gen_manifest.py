#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that the harness implements; the rest under not_applicable."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = subprocess.run([V + "/harness/target/release/verif", "list"], capture_output=True, text=True).stdout.split()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import sys
sys.path.insert(0, V + "/tools")
from manifest_notes import TECH, NOTE, NA
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
            technique=TECH[i], level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="All checks share one harness crate (harness/) with a path dependency on /repo; run.sh rebuilds it and runs the named check. No hooks are needed in /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
