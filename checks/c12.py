#!/usr/bin/env python3
"""C12: the Proof Assistant only completes with a valid proof and changes nothing else."""
from verify_common import *
import random, sys, padrive, pa
import c13
sys.setrecursionlimit(20000)

def strip_contrib(t): return re.sub(r"\s*\(Contributed by \?who\?, \d+-\w+-\d+\.\)", "", t)

def finish(x):
    """save (or not), check the stored proof with the reference, leave, and compare the database"""
    res, r = x.res, x.r
    p = x.p; l = x.s.label
    th0 = x.orig if x.saved is None else x.saved
    if r.random() < .75:
        # run towards completion first
        for _ in range(30):
            g = x.guided()
            if not g or x.viol or x.stop: break
            if not x.do("assign %d %s /override%s" % (g[-1][0], g[-1][1], r.choice([" /no_unify", ""]))): return
        if not x.viol and not x.stop and r.random() < .3: x.do("unify all")
    if x.viol or x.stop: return
    if r.random() < .75:
        fmt = r.choice(["", " /compressed", " /normal", " /packed", " /explicit", " /compressed /old_compression", " /packed /explicit"])
        if not x.do("save new_proof%s /override" % fmt) or x.viol: return
    if r.random() < .3:
        # further unsaved changes must not reach the database
        for c in ("delete all", "undo") if r.random() < .4 else ("delete all",): x.do(c)
        if x.viol: return
    want = x.saved
    p.cmd("exit /force", lambda q, t: "y")
    if not p.prompt.startswith("MM> "): x.bad("C12", "no-exit", "EXIT /FORCE did not leave the Proof Assistant"); return
    o = p.cmd("show proof %s /normal" % l)
    got = pa.parse_normal(o)
    exp = want if want is not None else None
    if exp is None:
        try: exp = mmref.rpn_of(*mmref.decode(x.db, x.s, x.orig)[:2])
        except mmref.ProofError: exp = None
    if exp is not None:
        res.ev(("stored", want is not None, len(exp)))
        if got != exp: x.bad("C12", "stored-proof", "%s: the stored proof is %s; expected %s (%s)" % (l, got, exp, "saved" if want else "not saved, so unchanged")); return
    v = p.cmd("verify proof %s" % l)
    ref = mmref.verify(x.db, x.s, exp) if exp is not None else None
    if ref is not None and want is not None:
        res.ev(("verified", ref.kind, bool(ref.dv)))
        dv = re.findall(r"(?i)disjoint", v)
        good = "All proofs" in v or not re.search(r"\?Error|Warning", v)
        if "?" in exp:
            if l not in unproved(v): x.bad("C12", "incomplete-not-reported", "the incomplete proof of %s is not reported:\n%s" % (l, v))
        elif ref.kind == "ok" and not ref.dv:
            res.count("complete and valid")
            if not good: x.bad("C12", "valid-rejected", "VERIFY PROOF rejects the valid saved proof of %s:\n%s" % (l, v))
        elif good: x.bad("C12", "invalid-accepted", "VERIFY PROOF accepts the saved proof of %s: %s (%s %s)" % (l, " ".join(exp), ref.kind, ref.dv))
        else: res.count("saved proof rejected: " + str(ref.kind))
    if x.viol: return
    o = p.cmd('write source "o.mm"')
    out = x.sc.read("o.mm")
    if out is None: x.bad("C12", "write-failed", "WRITE SOURCE after the session failed:\n" + o); return
    a, b = x.s.proof_text
    pre = x.text[:a]; post = x.text[b:]
    if want is None: 
        if out != x.text and out != x.text + "\n": x.bad("C12", "database-changed", "the session ended without saving but the database differs")
        res.ev("unsaved"); return
    out2 = strip_contrib(out)
    # the statement's own comment may get a contributor date; everything else is as it was
    pp = strip_contrib(pre)
    head = pp[:pp.rfind(x.s.label)]
    sq = lambda t: " ".join(t.split())
    if not (sq(out2).startswith(sq(pp)) or sq(out2).replace(" $)", "$)").startswith(sq(pp).replace(" $)", "$)"))) or not out.endswith(post.rstrip("\n") + "\n" if not post.endswith("\n") else post):
        x.bad("C12", "others-changed", "SAVE NEW_PROOF of %s changed other parts of the database:\n%s" % (l, out)); return
    try: d2 = mmref.parse(out)
    except mmref.MMError as e: x.bad("C12", "saved-unreadable", "the saved database is malformed: %s" % e); return
    s2 = d2.by_label.get(l)
    try: back = mmref.rpn_of(*mmref.decode(d2, s2)[:2])
    except mmref.ProofError as e: back = None
    if back != want: x.bad("C12", "saved-text", "the proof text written for %s decodes to %s, not to the saved %s" % (l, back, want))
    res.ev("written"); res.count("database compared")

def case(res, rng, ctx):
    c13.session(res, rng, ctx, dict(save=2, undo=4, redo=2, inert=2.5), rng.randint(3, 22), {"C12"}, end=finish)

if __name__ == "__main__":
    c = harness.Check("C12", assumptions=["an independent verifier (lib/mmref.py) decides whether a proof is valid", "SAVE NEW_PROOF may add a contributor date to the statement's own comment"])
    ctx = {"plain": harness.build("plain"), "asan": harness.build("asan")}
    c.run("session", case, c.n(4000, 60000), ctx, "random Proof Assistant sessions on generated databases: after every command the displayed proof is re-derived step by step; every claim of completeness, saved proof and final database is judged by the reference verifier")
    c.finish(min_evals=1000)
