#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and registry.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["include/opengm/" + f for f in files], mechanism=[dict(name=n, where="include/opengm/" + w) for n, w in mech], hook_needed=None), na=na))


IH = ["inputs", "histories"]
exec(open(os.path.join(HERE, "properties.py")).read())

reg = json.load(open(os.path.join(HERE, "registry.json")))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "na"}
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in reg:
        r = reg[p["id"]]
        checks.append({
            "property": p["id"], "quick_cmd": "./check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "contract-based deductive verification (VCs from the instantiated clang AST of the real code, discharged by z3/cvc5)",
            "level": r.get("level", "proof"),
            "level_note": r.get("note", "every obligation generated from the current source is discharged by an SMT solver; trusted: VC generator, clang AST, library models, solvers; functions outside the verifier's reach are covered by the labelled bounded executable contracts only")})
    else:
        assert p["na"], p["id"]
        na.append({"property": p["id"], "reason": p["na"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
