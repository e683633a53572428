"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import plan
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = ("All obligations generated from /repo's current source on this run are discharged for all inputs and iterations: "
        "machine floats treated as reals, numpy{scm} replaced by stated rules, loops instrumented in memory for their contracts, pint executes for real; the symbolic executor and "
        "contract rules (vc/, contracts/) are trusted together with z3, cvc5 and sympy. A failed obligation is replayed on the real "
        "code; where the proof cannot be re-established for organisational reasons, the bounded concrete check (oracle/) stands in, labelled bounded.")
PY = "/opt/venv/bin/python -W ignore"
checks, na = [], []
for p in props:
    i = p["id"]
    if not plan.PLAN[i][1]:
        na.append({"property": i, "reason": "scenario contracts not built yet"})
        continue
    scm = ", scmdata, pandas and tqdm" if i in ("C12", "C13", "C14", "C15") else ""
    checks.append({
        "property": i, "quick_cmd": "VERIF_TIER=quick %s check.py %s" % (PY, i),
        "thorough_cmd": "VERIF_TIER=thorough %s check.py %s" % (PY, i),
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification: symbolic verification conditions from the real Python source, discharged by ring normalisation, z3, cvc5",
        "level": "proof", "level_note": NOTE.replace("{scm}", scm)})
json.dump({"version": 1, "setup_cmd": PY + " -c 'import vc, plan'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Repairs and findings: known-findings.txt."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
