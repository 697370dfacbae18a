"""Writes MANIFEST.json from the claims below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
T = "contract-based deductive verification of the Go code (weakest-precondition style VCs from SSA, discharged by z3/cvc5)"
PROOF = ("Every obligation generated from the current source of the functions named in the evidence is discharged for all inputs; "
         "no bound. Trusted: the VC generator, go/ssa, z3/cvc5, the Go compiler, and the assumed contracts of math/big and math "
         "(listed per run; audited by concrete runs of the real code in the same check).")
CLAIMS = {}
for i in range(1, 18):
    CLAIMS["C%02d" % i] = ("proof", T, PROOF)
EXTRA = os.path.join(HERE, "claims.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        CLAIMS[k] = tuple(v)
NA = {}
if os.path.exists(os.path.join(HERE, "na.json")):
    NA = json.load(open(os.path.join(HERE, "na.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt check.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                 "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                 "technique": CLAIMS[p][1], "level": CLAIMS[p][0], "level_note": CLAIMS[p][2]} for p in ids if p in CLAIMS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check registered yet")} for p in ids if p not in CLAIMS],
     "notes": "See DESIGN.md. No hooks in /repo: the checks read the source through go/ssa and run it through a build overlay."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
