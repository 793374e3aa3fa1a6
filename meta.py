#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (kept in one place so that they stay in step with props.py)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
S = "src/"
def P(id, title, statement, over, qtext, why, files, mech, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})))
PR = []; NOTE = {}; NA = {}
exec(open(V + "/meta_props.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p in PR: f.write(json.dumps(p) + "\n")
from props import PROPS
checks = [dict(property=p["id"], quick_cmd="python3 /verif/check.py %s --tier quick" % p["id"], thorough_cmd="python3 /verif/check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
    technique="symbolic execution of the LLVM IR of the real code, SMT (z3/cvc5, nonlinear reals + bit-vectors), native replay of counterexamples", level="model_checking",
    level_note=NOTE.get(p["id"], "") + " Holds for every value of the symbolic inputs within the bounds listed in the evidence; floating point is treated as exact real arithmetic; entries the solver leaves undecided are listed in the evidence and not counted as proved.") for p in PR if p["id"] in PROPS]
json.dump(dict(version=1, setup_cmd="mkdir -p /verif/build && make -j8 -C /verif/engine OUT=/verif/build", hooks=dict(guard="none (no hooks: the checks compile /repo's unmodified sources to LLVM IR)", enable="not needed", source_commits=[]), checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes="check.py recompiles the translation units a property depends on from /repo's working tree to LLVM bitcode, links them with the harness and runs every entry in the symbolic executor in engine/."), open(V + "/MANIFEST.json", "w"), indent=1)
missing = [p["id"] for p in PR if p["id"] not in PROPS and p["id"] not in NA]; assert not missing, missing
for p in PR: assert len(p["title"]) <= 80, p["id"]
