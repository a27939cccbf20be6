import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import sys
sys.path.insert(0, V + "/tools")
import suites
NOTE = {}
DEF = ("Bounded: seeded and enumerated histories of calls, each replayed in the real library and followed act by act in the "
       "TLA+ specification by TLC; trusts the harness' encoding of values and TLC.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.SUITES:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": suites.TECH.get(i, "TLA+ specification, TLC trace validation of recorded runs"),
                       "level": "model_checking", "level_note": suites.NOTE.get(i, DEF)})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "specification in spec/*.tla; harness in harness/; tools/check.py PROPERTY TIER runs a check"}
if suites.HOOKS:
    m["hooks"] = suites.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
