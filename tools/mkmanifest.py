#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/props.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(here, "tools", "props.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "C32": "Termination of the shifted QR/QL iterations for every finite input is an unbounded claim with no known bound on the iteration count; a bounded unrolling cannot decide it, and a claim with no bound is a proof.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t.get("technique", "symbolic execution of the generic Rust code on a symbolic real number type, z3/cvc5 verdicts per path"),
                       "level": "model_checking", "level_note": t.get("note", "Every path of the real code within the stated shapes is explored with symbolic entries and each obligation is decided by an SMT solver (polynomial identities by normal form, re-asked of the solver un-normalised where it can answer). Exact reals, not rounding.") + " Bounds: " + t["bounds"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the generic library code is instantiated with a symbolic number type from /verif/engine, and Kani harnesses in /verif/kharness depend on /repo by path."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
