import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mmref, mmgen, mutate, drive, harness
from drive import norm

ALLOK = "All proofs in the database were verified"

def error_labels(text):
    """labels of $p statements with an error message, in the output of VERIFY PROOF"""
    return re.findall(r'\?Error (?:on line \d+ of file "[^"]*" )?at statement \d+, label "([^"]*)", type "\$p"', norm(text))

def unproved(text):
    t = norm(text)
    m = re.search(r"Warning: The following \$p statement\(s\) were not proved: (.*)", t)
    if not m: return []
    out = []
    for x in m.group(1).split(", "):
        w = x.split()
        if not w: break
        out.append(w[0])
        if len(w) > 1: break
    return out

def subst_proofs(text, repl):
    """replace the proofs of the given labels in the source text (repl: label -> new proof text)"""
    db = mmref.parse(text)
    spans = sorted(((s.proof_text, s.label) for s in db.stmts[1:] if s.type == "p" and s.label in repl), reverse=True)
    for (a, b), l in spans: text = text[:a] + " " + repl[l] + " " + text[b:]
    return text
