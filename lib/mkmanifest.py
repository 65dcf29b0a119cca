#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMS lists the properties with a check."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
CLAIMS = {
 "C01": ("reference-verifier oracle over monitored executions on mutated proofs", "every verdict of VERIFY PROOF on ~40000 mutated proofs per run compared with an independent verifier; trusts lib/mmref.py"),
 "C02": ("reference-verifier oracle over monitored executions on valid proofs in all formats", "every verdict on ~28000 valid proofs per run; trusts lib/mmref.py"),
 "C03": ("offline checker of reported $d violations against a reference verifier", "exact set of reported (assertion, required pair, offending pair) compared on ~30000 proofs per run; trusts lib/mmref.py"),
}
exec(open(os.path.join(HERE, "claims.py")).read()) if os.path.exists(os.path.join(HERE, "claims.py")) else None
LEVEL = {"C21": "fault_enumeration"}
NA = {
 "C18": "the technique applies (a reference checker of the conventions as monitor), but no oracle was finished; memory safety, determinism, leaks and absence of side effects of VERIFY MARKUP are covered by C22, C27, C28, C29",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/%s.py quick" % i.lower(), "thorough_cmd": "python3 checks/%s.py thorough" % i.lower(),
            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": LEVEL.get(i, "exploration"), "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "No hooks in /repo: the checks compile /repo/src out of tree (plain, sanitizer builds) and observe sessions from outside. Known and repaired defects are in known_findings.txt. VERIF_SEED seeds every random choice."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
