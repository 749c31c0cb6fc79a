#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, NOT_APPLICABLE
checks = []
for pid, s in sorted(PROPS.items()):
    parts = []
    if s.get("kani"): parts.append("Kani contracts on the real crates (full input domain)")
    u = s.get("units", [])
    if any(not x.startswith("sql_") for x in u): parts.append("Verus contracts on functions extracted from /repo each run")
    if any(x.startswith("sql_") for x in u): parts.append("verification conditions of the SQL the real code executes (z3)")
    parts.append("bounded stand-in on the real code for the rest")
    checks.append(dict(property=pid, quick_cmd="python3 check.py " + pid, thorough_cmd="python3 check.py " + pid,
                       evidence_file="evidence/%s.json" % pid, technique="contract-based deductive verification: " + "; ".join(parts),
                       level="proof" if (s.get("kani") or u) else "exploration", level_note=s.get("note", "")))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks: the checks use public interfaces and functions extracted from the sources", source_commits=[]),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="See DESIGN.md. known_findings.txt lists genuine defects (repaired and recorded).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
