#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py (run me after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs, properties_src
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TR = "symbolic execution of the compiled LLVM IR over exact reals; assertions decided by an algebraic prover with Z3 (nonlinear real arithmetic)"
TB = "symbolic execution of the compiled LLVM IR over bit-vectors and IEEE floats; branch and assertion queries decided by Z3"
NA = {}
checks, na = [], []
for p in properties_src.P:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]; real = s.get("mode") == "real"
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            technique=s.get("technique", TR if real else TB), level="model_checking",
            level_note="solver-decided for all values within: " + s["bounds"] + ". " + "; ".join(s.get("assumptions", []))))
    else: na.append(dict(property=i, reason=NA.get(i, "no check has been built for this property yet")))
json.dump(dict(version=1, setup_cmd="make -s -j8 -C engine BUILD=../build/engine dirs all", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
