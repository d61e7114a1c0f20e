#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from checks/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.props import P, CID, NA  # noqa: E402

with open(HERE + "/properties.jsonl", "w") as f:
    for slug, title, st, over, q, why, files, mech in P:
        assert len(title) <= 80, title
        f.write(json.dumps(dict(id=CID[slug], title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))) + "\n")
NOTE = ("Solver verdict over all inputs of every obligation (see the evidence file's bounds). Trusts clang's IR generation, the IR semantics in zsym "
        "(cross-checked against the native build on every run) and z3. ")
checks = []
for slug, title, *_ in P:
    if CID[slug] in NA:
        continue
    checks.append(dict(property=CID[slug], quick_cmd="./run.py %s --tier quick" % CID[slug], thorough_cmd="./run.py %s --tier thorough" % CID[slug],
                       technique="symbolic execution of the clang IR of the real code, SMT (z3): bit-vectors/IEEE floats, real arithmetic for formulas",
                       level="model_checking", level_note=NOTE))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, mpmath, sympy, numpy' && clang++-18 --version && mkdir -p evidence",
               checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes="see DESIGN.md; known findings in known_findings.txt"), open(HERE + "/MANIFEST.json", "w"), indent=1)
