#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/checks")
import plan, props
NA = []
out = []; checks = []
for p in props.PROPS:
    have = p["id"] in plan.PROPS
    if not have and not p["_na"]: continue
    out.append({k: v for k, v in p.items() if not k.startswith("_")})
    if p["_na"]: NA.append(dict(property=p["id"], reason=p["_na"])); continue
    checks.append(dict(property=p["id"], quick_cmd="python3 checks/run.py %s --tier quick" % p["id"], thorough_cmd="python3 checks/run.py %s --tier thorough" % p["id"],
        technique=p["_tech"] or "symbolic execution of the real code's LLVM IR with state merging, every obligation decided by z3", level="model_checking",
        level_note=("Holds for every value of the symbolic inputs within the bounds listed in the evidence (vertices, symbolic edges, operations, text lengths); nothing is claimed outside. " + p["_note"] + (" Trusts the proxies of checks/pysym.py (cross-checked against plain values on sampled paths) and z3." if p["_tech"] else " Trusts clang -O0 IR, the engine (cross-checked against native runs on sampled inputs), the libc model and z3.")).replace("  ", " ")))
with open(V + "/properties.jsonl", "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA, notes="No hooks in /repo: harnesses use the public headers and accessor macros. Checks honour VERIF_SEED (choice of the larger families) and VERIF_JOBS (parallel engine runs)."), open(V + "/MANIFEST.json", "w"), indent=1)
miss = [p["id"] for p in props.PROPS if p["id"] not in plan.PROPS and not p["_na"]]
print("claimed %d, not applicable %d, unbuilt %s" % (len(checks), len(NA), miss))
for o in out:
    for f in o["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print("missing anchor", o["id"], f)
