#!/usr/bin/env python3
# writes /verif/MANIFEST.json from props.py and properties.jsonl
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
            technique=c.get("technique", "bounded symbolic execution of the compiled code (LLVM IR), assertions decided by z3 over exact reals, counterexamples replayed natively"),
            level=c.get("level", "model_checking"),
            level_note=c.get("note", "Exhaustive over all values of the symbolic variables on every feasible path within the stated bounds: ") + c["bounds"] + ". Trusts the IR lifting pass and exact-real reading of double arithmetic; anything outside the bounds is not claimed."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
