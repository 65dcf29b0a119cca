#!/usr/bin/env python3
"""C01: VERIFY PROOF never accepts an invalid proof."""
from verify_common import *

# a MIU-like system: string rewriting with possibly empty substitutions
def miu_db(rng, nth):
    letters = ["M", "I", "U"]
    head = "$c M I U |- wff $.\n$v x y $.\nwx $f wff x $.\nwy $f wff y $.\nwe $a wff $.\n"
    for l in letters: head += "w%s $a wff x %s $.\n" % (l, l)
    head += "ax $a |- M I $.\n${ Ia $e |- x I $. I_ $a |- x I U $. $}\n${ IIa $e |- M x $. II $a |- M x x $. $}\n"
    head += "${ IIIa $e |- x I I I y $. III $a |- x U y $. $}\n${ IVa $e |- x U U y $. IV $a |- x y $. $}\n"
    db = mmref.parse(head)
    def syn(d, s):
        n = d.add("we")
        for c in s: n = d.add("w" + c, [n])
        return n
    thms = []
    for i in range(nth):
        d = mmref.Dag(); cur = ["M", "I"]; node = d.add("ax")
        for _ in range(rng.randint(1, 7)):
            opts = []
            if cur[-1] == "I": opts.append(("I_", cur[:-1], None, cur + ["U"]))
            if len(cur) < 12: opts.append(("II", cur[1:], None, ["M"] + cur[1:] * 2))
            for k in range(len(cur) - 2):
                if cur[k:k + 3] == ["I"] * 3: opts.append(("III", cur[:k], cur[k + 3:], cur[:k] + ["U"] + cur[k + 3:]))
            for k in range(len(cur) - 1):
                if cur[k:k + 2] == ["U"] * 2: opts.append(("IV", cur[:k], cur[k + 2:], cur[:k] + cur[k + 2:]))
            if not opts: break
            r, a, b, new = rng.choice(opts)
            kids = [syn(d, a)] + ([syn(d, b)] if b is not None else []) + [node]
            node = d.add(r, kids); cur = new
        thms.append(("t%d" % i, cur, d, node))
    body = "".join("%s $p |- %s $= ? $.\n" % (l, " ".join(c)) for l, c, d, n in thms)
    return head + body, {l: (d, n) for l, c, d, n in thms}

def judge(res, text, binary, sc, extra_seq=None, rng=None):
    try: db = mmref.parse(text)
    except mmref.MMError: return None
    ps = [s for s in db.stmts[1:] if s.type == "p"]
    ver = {s.label: mmref.verify(db, s) for s in ps}
    sc.write("a.mm", text)
    cmds = ["read a.mm", "verify proof *"]
    order = [s.label for s in ps]
    if rng: rng.shuffle(order)
    for l in order: cmds.append("verify proof %s" % l)
    cmds.append("verify proof *"); cmds.append("verify proof " + ",".join(order)); cmds.append("verify proof ??*,?")
    s = drive.run(binary, cmds, sc.d)
    files = {"a.mm": text}
    if not res.check_session(s, files): return None
    if drive.READ_OK not in (s.seg(0) or ""):
        res.count("read-error"); return None
    if len(s.segs) < len(cmds): res.bad("desync", "session lost commands\n" + s.out[-800:], files, cmds); return None
    outs = {l: s.seg(2 + i) for i, l in enumerate(order)}
    k = len(cmds)
    multi = [s.seg(1), s.seg(k - 3), s.seg(k - 2), s.seg(k - 1)]
    for p in ps:
        v = ver[p.label]
        if v.kind in ("obsolete-compression", "too-long"): res.count("skip"); continue
        res.count("ref-" + v.kind)
        o = outs[p.label]
        err = "?Error" in o or "?BUG" in o
        unp = p.label in unproved(o)
        if v.ok: continue
        res.ev((p.proof, v.kind))
        if v.kind == "incomplete":
            if not (err or unp): res.bad("accepted-" + v.kind, "%s has unknown steps but VERIFY PROOF does not say so\n%s" % (p.label, o), files, cmds)
        elif not err and not (unp and v.kind in ("empty", "incomplete-dv")):
            # an invalid proof whose decoding needs an explicit error
            if unp and p.proof and "?" in "".join(p.proof): continue
            res.bad("accepted-" + v.kind, "VERIFY PROOF accepts the invalid proof of %s (%s)\nproof: %s\noutput: %s" % (p.label, v.kind, " ".join(p.proof), o), files, cmds)
        for j, m in enumerate(multi):
            if j == 2 or len(p.label) > 1 or j < 2:
                if p.label not in error_labels(m) and p.label not in unproved(m):
                    res.bad("list-accepted-" + v.kind, "%s (%s) is not reported by VERIFY PROOF form %d\n%s" % (p.label, v.kind, j, m[-3000:]), files, cmds)
    kinds = set(v.kind for v in ver.values()) - {"ok", "obsolete-compression", "too-long"}
    for j in (0, 1):
        if ALLOK in multi[j] and kinds:
            res.bad("summary-" + ("dv" if kinds == {"dv"} else "other"), "VERIFY PROOF * prints 'All proofs ... verified' although there are proofs in error: %s\n%s" % (sorted(kinds), multi[j][-2000:]), files, cmds)
    return db, ver, s

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        if rng.random() < .12:
            text, pr = miu_db(rng, rng.randint(2, 6))
        else:
            text, g, pr = mmgen.make_db(rng, comments=rng.random() < .3, nth=rng.randint(3, 10), hyps=rng.choice([1, 3]))
        db = mmref.parse(text)
        for rep in range(2):
            repl = {}
            for s in db.stmts[1:]:
                if s.type != "p" or s.label not in pr: continue
                d, root = pr[s.label]
                fmt = rng.choice(mmgen.FMTS)
                try: mmref.rpn_of(d, root, 2500)
                except mmref.ProofError: fmt = "compressed"
                m = None
                if rng.random() < .55:
                    for _ in range(5):
                        m = mutate.mut_dag(rng, db, s, d, root)
                        if m: break
                    if m:
                        d, root = m[1], m[2]
                        try: mmref.rpn_of(d, root, 2500)
                        except mmref.ProofError: fmt = "compressed"
                try: pt = mmgen.render_proof(db, s, d, root, fmt, rng)
                except KeyError: pt = mmgen.render_proof(db, s, d, root, "normal", rng)
                if not m:
                    toks = pt.split()
                    for _ in range(rng.randint(1, 3)): k, toks = mutate.mut_tokens(rng, db, s, toks)
                    pt = mmgen.wrap_tokens(toks)
                repl[s.label] = pt
            t2 = subst_proofs(text, repl)
            # statement-level mutation
            if rng.random() < .35:
                t3 = stmt_mut(rng, t2)
                try: mmref.parse(t3); t2 = t3
                except mmref.MMError: pass
            r = judge(res, t2, ctx["bin"], sc, rng=rng)
            if r and res.sample is None:
                res.sample = {"verdicts": {l: v.kind for l, v in list(r[1].items())[:6]}, "proof": " ".join(r[0].asserts()[-1].proof or [])[:200]}

def stmt_mut(rng, text):
    import re
    k = rng.choice(["d", "d", "tok", "hyp"])
    if k == "d":
        m = list(re.finditer(r"\$d [^$]*\$\.", text))
        if not m: return text
        x = rng.choice(m); w = x.group(0).split()
        if len(w) > 4 and rng.random() < .6:
            w.pop(rng.randrange(1, len(w) - 1)); return text[:x.start()] + " ".join(w) + text[x.end():]
        return text[:x.start()] + text[x.end():]
    m = list(re.finditer(r"(?<=\s)\$[epa] [^$]*(?=\$[.=])", text))
    if not m: return text
    x = rng.choice(m); w = x.group(0).split()
    if len(w) < 4: return text
    p = rng.randrange(2, len(w)); q = rng.randrange(2, len(w))
    if k == "tok": w[p] = w[q]
    else: w[p], w[q] = w[q], w[p]
    return text[:x.start()] + " ".join(w) + " " + text[x.end():]

DVDB = """$c wff |- ( ) = $. $v x y z $.
wx $f wff x $. wy $f wff y $. wz $f wff z $.
we $a wff ( x = y ) $.
${ $d x y $. ax $a |- ( x = y ) $. $}
${ $d x z $. good $p |- ( x = z ) $= wx wz ax $. $}
bad $p |- ( x = %s ) $= wx w%s ax $.
"""
def dvsum(res, rng, ctx):
    """databases whose only errors are disjoint-variable violations (known finding: the summary line)"""
    with drive.Scratch() as sc:
        v = rng.choice("xyz")
        judge(res, DVDB % (v, v), ctx["bin"], sc)

if __name__ == "__main__":
    c = harness.Check("C01", assumptions=["the independent reference verifier in lib/mmref.py decides validity", "proofs carrying the obsolete-compression signature (UV without UU) are skipped"])
    ctx = {"bin": harness.build("plain")}
    c.run("mutants", case, c.n(3500, 40000), ctx, "random database, every proof mutated at proof-tree, token or letter level, some statements and $d changed; each proof judged by the reference verifier and by VERIFY PROOF alone, in lists and with *; non-trivial = reference says not valid")
    c.run("dvsummary", dvsum, 8, ctx, "databases whose only error is a disjoint-variable violation")
    c.finish(min_evals=500)
