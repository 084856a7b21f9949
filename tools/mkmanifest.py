#!/usr/bin/env python3
"""MANIFEST.json from ddv/props.py and the reasons below."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from ddv.props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
base = "Every obligation is generated from the clang IR of /repo's current headers and discharged by z3/cvc5/polynomial ideal membership; doubles are treated as reals (exact arithmetic), allocation never fails, external functions by contract (listed in the evidence). "
checks = []; na = []
for i in ids:
    if i in PROPS and PROPS[i].get("claimed", True):
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3-vt -m ddv.run " + i, thorough_cmd="python3-vt -m ddv.run " + i,
            technique="contract-based deductive verification: function contracts and loop invariants over the LLVM IR of the real headers, discharged by SMT",
            level=p.get("level", "proof"), level_note=base + p.get("note", "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet under contract")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sympy' && clang++ --version >/dev/null && mkdir -p evidence", checks=checks, not_applicable=na,
    notes="ddv: a deductive verifier for the IR of the real code, see DESIGN.md. VERIF_TIER=thorough gives the solvers longer and always runs the bounded replay drivers.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
