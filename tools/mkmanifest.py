#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, units.py and the not-applicable table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from units import PROPS
NA = {}
try:
    from units import NOT_APPLICABLE as NA
except ImportError:
    pass
NOTE = ("Bounded: within the bounds recorded in the evidence ({b}) the solver decides every branch and every assertion for all remaining values; "
        "nothing is claimed outside them. Floating point is treated as real arithmetic. Trusted: clang, the instrumentation pass, Z3. Violations are reported only when a native run of the real code reproduces them.")
ps = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    if i in PROPS:
        b = "; ".join(u["name"] for u in PROPS[i]["units"])
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "technique": PROPS[i].get("technique", "bounded symbolic execution of the LLVM IR of the real code, branches and assertions decided by Z3, against an independent reference"),
                            "level": "model_checking", "level_note": NOTE.format(b="units " + b) + (" " + PROPS[i]["note"] if "note" in PROPS[i] else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
