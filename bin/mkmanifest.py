#!/usr/bin/env python3
"""Generates MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from groups import CHECKS
BASE = ("TLC checks the design exhaustively within small constants; the code is bound to the specification by replaying "
        "specification-generated behaviours into a driver compiled from /repo and having TLC accept or reject every recorded result. "
        "Trusted: TLC, the driver's encodings, the compiler. Not a proof for all inputs: inputs beyond the generated ones are not covered. ")
TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, "bin", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        checks.append(dict(property=p, quick_cmd="python3 bin/check.py %s --tier quick" % p,
                           thorough_cmd="python3 bin/check.py %s --tier thorough" % p,
                           technique=TECH.get(p, "TLA+ specification, TLC design checking, trace validation of replayed behaviours"),
                           level=CHECKS[p][1], level_note=BASE + NOTE.get(p, "")))
m = dict(version=1, setup_cmd="bash bin/setup.sh",
         hooks=dict(guard="PROXSUITE_NLP_VERIF", enable="no hooks are needed: the guard is never used; drivers only use the public API", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in CHECKS],
         notes="See DESIGN.md. known_findings.txt lists the repaired defects.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
