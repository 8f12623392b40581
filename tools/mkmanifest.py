#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/registry.py and the notes below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import registry
POOL = ("Every execution explored (controlled schedules of the real code: random, PCT, systematic single and pairwise delays, clock moves, spurious wake-ups) is checked by TLC "
        "to be a behaviour of spec/ThreadPool.tla; bounded numbers of threads, tasks and schedules. Trusts the scheduler's models of pthread primitives and sequential consistency (races are detected separately).")
TECH = {"pool": "TLA+ specification, TLC trace validation of the real code under a controlled scheduler"}
NOTE = {"pool": POOL}
TECH.update(registry.TECH); NOTE.update(registry.NOTE)
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for p in props:
    if p not in registry.MODULES: continue
    m = registry.MODULES[p]
    checks.append(dict(property=p, quick_cmd="bin/check " + p, thorough_cmd="VERIF_TIER=thorough bin/check " + p, evidence_file="evidence/%s.json" % p,
                       technique=TECH[m], level="model_checking", level_note=NOTE[m]))
na = [dict(property=p, reason="check not built yet") for p in props if p not in registry.MODULES]
json.dump(dict(version=1, setup_cmd="bin/check --setup", checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/, harnesses for the real code in harness/, runner in bin/check and lib/. No hooks in /repo."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
