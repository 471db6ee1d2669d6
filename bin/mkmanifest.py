#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Every recorded call of the real library in the explored histories is judged by TLC against the relation the "
        "TLA+ specification gives for it, so the check is exact on what it executes; inputs come from TLC's exhaustive "
        "exploration of the kernel and builder models at small bounds and from a seeded generator beyond them, so a "
        "defect needing larger or rarer inputs can be missed. Trusted: TLC, the driver's projection of matrices.")
EIGS_TECH = ("TLA+ specification checked with TLC (model of the shared ARPACK state, model of spectrum witnesses); TLC-generated "
             "and seeded calls of eigs, alone and from several threads, replayed into the library; TLC validation of every call")
EIGS_NOTE = ("Every recorded call is judged by TLC with Eigs.tla: eigen-equation and norm in fixed point 1/4096, the wanted "
             "eigenvalues against an integer similarity witness the specification itself checks. Dimensions up to 40, integer "
             "matrices times powers of two. Schedules of concurrent calls are the ones the operating system makes; the "
             "locking protocol is explored exhaustively only in the model. Trusted: TLC, ARPACK as shipped, the driver.")
NA = {}
checks = []
for p in props:
    if p["id"] in NA:
        continue
    eigs = p["id"] == "C26"
    cmd = "python3 bin/check_eigs.py" if eigs else "python3 bin/check.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": EIGS_TECH if eigs else "TLA+ specification checked with TLC; TLC-generated and seeded call histories replayed into the library; TLC trace validation of every call",
                   "level": "model_checking", "level_note": EIGS_NOTE if eigs else NOTE})
man = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "No hooks in /repo: the public API exposes the whole abstract state. Repairs of genuine defects are the fix: commits listed in known-findings.txt."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
