#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json. LEVEL: proof when contracts decide the property, exploration where only the bounded stand-in runs."""
import json, os
PROOF = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22".split()
ALL = ["C%02d" % i for i in range(1, 23)]
NOTE = {}
NA = {}
def chk(p):
    pr = p in PROOF
    return dict(property=p, quick_cmd="python3-vt check.py " + p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + p,
        technique="contract-based deductive verification of the real functions (own VC generator over the clang AST, z3 per obligation), counterexample replay" if pr else
                  "bounded stand-in for functions not yet under contract: randomised replay program against the specification (never counted as proved)",
        level="proof" if pr else "exploration",
        level_note=NOTE.get(p, "see DESIGN.md section " + p))
d = dict(version=1, setup_cmd="true", checks=[chk(p) for p in ALL if p not in NA], not_applicable=[dict(property=p, reason=r) for p, r in NA.items()])
json.dump(d, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
