#!/usr/bin/env python3
"""regenerate MANIFEST.json from the registry of checks and properties.jsonl"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import props

NA = {
    "N01": "Crash states of the disk are not visible in the source; the code has no atomic-replace mechanism whose use could be checked.",
    "N02": "Equality of decrypted and original data rests on the numerical inverse property of the ciphers, which static analysis of this code cannot decide; its structural clauses are claimed as H01, H02, S01, S02, S03, S04.",
    "N03": "Timing and residual machine memory are decided below the level of source or MIR (code generation, allocator, dependencies); the structural part (wrapper erases on drop) is claimed in K05.",
}
TECH = "static abstract interpretation of MIR (byte-provenance domain, linear relations, typestate monitor)"
NOTE = "Decides the stated clauses on every abstract path of the analysed functions as compiled from /repo's current tree; trusts the models of std and third-party crates in engine/natives.py (ciphers, hashes, KDFs and RNG are uninterpreted functions). Paths the analysis cannot follow are printed as UNDECIDED and do not raise an alarm."
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    P = props.PROPS.get(pid)
    if P is None:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "technique": P.get("tech") or TECH,
        "level": "other",
        "level_note": P["how"] + " " + NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks share one engine; each run re-reads /repo's current source through a rustc driver (no hooks in /repo).",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
