#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below (developer tool)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from proptable import P, NA  # noqa
from jobs import PROPS

with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for p in P:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        for f in q["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
        assert q["statement"].count(". ") <= 2, p["id"]
        o.write(json.dumps(q) + "\n")
HOOKS = ['ea234d92e9009bf1484e706a43880cc3c9dd8f85']  # generic_azimuth_periods
checks = []
for p in P:
    if p["id"] in PROPS:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["level_note"]})
missing = {p["id"] for p in P} - set(PROPS) - {n["property"] for n in NA}
assert not missing, missing
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "cargo feature bench-internals", "enable": "the harness builds the crate with its own optional features, bench-internals among them", "source_commits": HOOKS},
           "checks": checks, "not_applicable": NA,
           "notes": "TLA+ with TLC. Fixes to siderust are the 'fix:' commits listed in KNOWN_FINDINGS.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
