#!/usr/bin/env python3
"""C13: UNDO and REDO in the Proof Assistant are exact inverses."""
from verify_common import *
import random, sys, padrive, pa, mutate
from mmref import Dag
sys.setrecursionlimit(20000)

def setup(rng, small=120, **o):
    """a database, one of its theorems, a proof of it, and the text with that theorem's proof cut down"""
    text, g, proofs = mmgen.make_db(rng, rng.choice(["normal", "compressed", "packed", None]), comments=rng.random() < .3, nth=rng.randint(2, 9), **o)
    db = mmref.parse(text)
    c = []
    for l, (dag, root) in proofs.items():
        try: n = len(mmref.rpn_of(dag, root, 5000))
        except mmref.ProofError: continue
        if n <= small: c.append(l)
    if not c: return None
    l = rng.choice(c); dag, root = proofs[l]; s = db.by_label[l]
    k = rng.random()
    if k < .45: text2 = subst_proofs(text, {l: "?"})
    elif k < .75:
        # an incomplete proof: some subproofs unknown
        cut = set(i for i in range(len(dag.nodes)) if rng.random() < .15)
        d2 = Dag(); memo = {}
        def go(i):
            if i in memo: return memo[i]
            lab, ks = dag.nodes[i]
            memo[i] = d2.add("?") if i in cut and i != root else d2.add(lab, [go(q) for q in ks])
            return memo[i]
        r2 = go(root)
        text2 = subst_proofs(text, {l: mmgen.render_proof(db, s, d2, r2, rng.choice(["normal", "compressed", "packed"]), rng)})
    else: text2 = text
    db = mmref.parse(text2)
    return text2, db, db.by_label[l], dag, root

def session(res, rng, ctx, weights, ncmd, props, end=None, **o):
    st = setup(rng, **o)
    if st is None: return None
    text, db, s, dag, root = st
    binary = ctx["asan"] if rng.random() < ctx.get("asan_share", .12) else ctx["plain"]
    with drive.Scratch() as sc:
        sc.write("t.mm", text)
        x = padrive.Run(res, rng, binary, sc, text, db, s, dag, root)
        try:
            if not x.start(): return None
            ch = padrive.Chooser(x, rng, weights)
            if rng.random() < .25 and "setundo" in weights: x.do("set undo %d" % rng.choice([1, 2, 3, 4]))
            for _ in range(ncmd):
                if x.viol or x.stop: break
                if len(x.rpn) > 400: x.do("undo"); continue
                if not x.do(ch.next()): break
            if not x.viol and not x.stop and end: end(x)
        except pa.Died: pass
        ss = x.p.session()
        if not res.check_session(ss, x.files, "proof assistant session"): return None
        x.report(props)
        res.sample = x.history[:12]
        return x

def sweep(x):
    """take everything back, then bring everything forward"""
    for c in ("undo", "redo"):
        for _ in range(len(x.stack) + 2):
            if x.viol or not x.do(c): return

def case(res, rng, ctx):
    session(res, rng, ctx, dict(undo=16, redo=12, setundo=.6, error=3, inert=1, save=.5, letvar=6, init=4), rng.randint(6, 26), {"C13"}, end=sweep)

if __name__ == "__main__":
    c = harness.Check("C13", assumptions=["the state compared is everything SHOW NEW_PROOF /ALL /LEMMON and SHOW NEW_PROOF /NORMAL display: labels, targets, sources, user formulas",
        "a command that repeats a value already set (LET, INITIALIZE) may take an UNDO level"])
    ctx = {"plain": harness.build("plain"), "asan": harness.build("asan")}
    c.run("history", case, c.n(4000, 60000), ctx, "random histories of every proof-changing command with UNDO, REDO and SET UNDO against a model stack of observed states, then a sweep back and forth")
    c.finish(min_evals=1000)
