#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
DEF = "runtime monitoring: generated workloads under AddressSanitizer and UBSan with an independent reference oracle on every call"
NOTE = "Every execution explored is judged by the oracle; nothing is claimed about inputs the seeded generators do not reach. Trusts the compiler, the sanitizers and the reference formulas in the harness."
m = {"version": 1, "setup_cmd": "python3 -c 'import checks' && clang++ --version",
     "checks": [], "not_applicable": [],
     "notes": "Checks compile their harness against /repo's header-only sources on every run; no hooks in /repo are needed. known_findings.txt lists the repaired defects."}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "no check yet"}); continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json", "technique": c.get("technique", DEF), "level": c.get("level", "exploration"), "level_note": c.get("note", NOTE)})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
