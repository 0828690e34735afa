#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = {}
NOTE = ("Symbolic execution of the LLVM IR of /repo's current sources: every path within the bounds is explored and every assertion and memory "
        "access on it is decided by the solver (Z3) for all values. Trusted: the executor (/verif/engine; its term simplifier is self-tested against Z3, "
        "sampled paths are replayed against machine code of the same sources), Z3, clang, and the models of the environment in /verif/model. Bounds: ")
out = {"version": 1, "setup_cmd": "python3 vp.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 vp.py check %s --tier quick" % i,
            "thorough_cmd": "python3 vp.py check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "symbolic execution of the LLVM IR of the real code, Z3 deciding every branch, memory access and assertion"),
            "level": "model_checking",
            "level_note": NOTE + c["bounds"] + ". Outside: " + c.get("outside", "-") + "."})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
