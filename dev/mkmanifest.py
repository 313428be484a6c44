#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, dev/claims.json (level, technique, note per claimed property) and dev/na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claims = json.load(open(V + "/dev/claims.json"))
na = json.load(open(V + "/dev/na.json"))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [], "hooks": {"guard": "none", "enable": "no hooks: contracts live in /verif/contracts, keyed by function, loop number and command name, and are verified against the go/ssa form of /repo's unmodified source"}, "notes": "Known findings and repaired defects: known-findings.txt. Method and limits: DESIGN.md."}
for p in props:
    i = p["id"]
    if i in claims:
        c = claims[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i, "technique": c.get("technique", "contract-based deductive verification (symbolic-execution VCs over go/ssa, z3/cvc5)"), "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "not claimed yet: contracts for this part are being written")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
