#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl')]
NOTE = "Every execution within the stated bounds is run on the repository's own code (rewritten for a controlled scheduler and virtual clock) and judged by the oracle; trusts the scheduler and the in-process Redis and gRPC stand-ins. "
T_HIST = "stateless model checking of the implementation: exhaustive enumeration of bounded operation histories against a reference model"
T_SCHED = "stateless model checking of the implementation: exhaustive preemption- and delay-bounded exploration of interleavings under a controlled scheduler"
T_FAULT = "model checking of the implementation with exhaustive enumeration of bounded environment faults and schedules"
T_INPUT = "model checking of the implementation: exhaustive enumeration of a bounded input space against a reference model"
CLAIMED = {}
exec(open('claimed.py').read())
m = {"version": 1,
     "setup_cmd": "bash bin/setup",
     "checks": [{"property": p['id'], "quick_cmd": f"bash bin/check {p['id']}", "thorough_cmd": f"env VERIF_TIER=thorough bash bin/check {p['id']}",
                 "technique": CLAIMED[p['id']][0], "level": "model_checking", "level_note": NOTE + CLAIMED[p['id']][1]}
                for p in props if p['id'] in CLAIMED],
     "not_applicable": [{"property": p['id'], "reason": NA.get(p['id'], "check not built yet")} for p in props if p['id'] not in CLAIMED],
     "notes": "Checks build the code of /repo's working tree in a scratch directory, rewritten for verif.local/vrt; /repo carries no hooks."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
