#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = "pure function of its arguments: no schedule, clock, I/O, fault or further party can influence it, so deterministic simulation has nothing to decide here (see DESIGN.md)"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "SIM_NO_HOOKS_NEEDED", "enable": "no hooks: the library's own objects are linked against the simulator by renaming symbols (objcopy --redefine-syms)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: " + CHECKS[i].get("technique", "seeded schedules and faults over the real library"),
            "level": "exploration",
            "level_note": CHECKS[i].get("note", "Seeded search over simulated executions of the real code in two builds (instrumented and -O3); every reported violation has been replayed from its file in a fresh process. Trusts the simulator's model of pthreads, malloc and stdio and the reference model in scen/.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA if i >= "C30" else "no check yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
