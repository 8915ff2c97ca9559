#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "pure": "runtime monitoring: generated inputs run through the real code, offline oracle (independent reference codec)",
    "conc": "runtime monitoring: online monitors and event ledgers over stress workloads with schedule perturbation injected at synchronisation points of the real code",
    "race": "Go race detector over concurrent workloads, with schedule perturbation injected at synchronisation points",
    "alias": "runtime monitoring: shadow copies of every buffer compared after writes of other owners, and Go race detector",
    "growth": "runtime monitoring: live heap after collection, goroutines and descriptors of the process sampled around long runs of finished operations",
    "codecrace": "Go race detector and differential oracle over concurrent first uses of types, with injected schedule perturbation",
}
KIND = {"C10": "pure", "C12": "pure", "C13": "pure", "C15": "pure", "C16": "pure", "C17": "pure",
        "C14": "alias", "C25": "codecrace", "C30": "race", "C31": "growth"}
NOTE = ("Holds on the executions observed: {n}. Trusts the harness (its models, reference codecs and scripted peers), "
        "the Go runtime{race}. Not exhaustive: {lim}.")
def note(p):
    k = KIND.get(p, "conc")
    n = PLAN[p]["rule"].rstrip(".")
    lim = {"pure": "inputs are sampled by generators"}.get(k, "schedules and inputs are sampled")
    race = " and its race detector" if k in ("race", "alias", "codecrace") else ""
    a = " ".join(PLAN[p].get("assume", []))
    return (NOTE.format(n=n[0].lower() + n[1:], lim=lim, race=race) + " " + a).strip()
m = {"version": 1, "setup_cmd": "python3 run.py --build",
     "checks": [{"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": TECH[KIND.get(p, "conc")], "level": "exploration", "level_note": note(p)}
                for p in ids if p in PLAN],
     "not_applicable": [{"property": p, "reason": "no check yet"} for p in ids if p not in PLAN],
     "notes": "No hooks are committed in /repo: instrumentation is put in by rewriting copies of its sources at build time (harness/cmd/vinstr) and go build -overlay. "
              "Repaired defects are listed in known-findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
