#!/usr/bin/env python3
"""C02: VERIFY PROOF accepts every valid proof."""
from verify_common import *
import c01

def big_db(rng):
    """many labels, many hypotheses, long and deeply shared proofs"""
    n = rng.choice([15, 19, 20, 21, 22, 24, 40, 119, 120, 121, 125, 139, 140, 141, 160, 620, 650])
    k = rng.choice([0, 1, 3, 18, 20, 25, 118, 121])
    L = ["$c ( ) -> |- wff $.", "$v " + " ".join("p%d" % i for i in range(max(k, 3))) + " $."]
    for i in range(max(k, 3)): L.append("f%d $f wff p%d $." % (i, i))
    L.append("wi $a wff ( p0 -> p1 ) $.")
    L.append("${ mp.1 $e |- p0 $. mp.2 $e |- ( p0 -> p1 ) $. mp $a |- p1 $. $}")
    L.append("ax1 $a |- ( p0 -> ( p1 -> p0 ) ) $.")
    # n distinct closed constants with axioms
    for i in range(n): L.append("$c k%d $. c%d $a wff k%d $. a%d $a |- k%d $." % (i, i, i, i, i))
    # chain: theorem uses hypothesis variables and all constants
    hyps = "".join(" th.%d $e |- p%d $." % (i, i) for i in range(k))
    # prove nested implication: start with |- k0 ; then for each i: |- ( x -> k0 ) by ax1 + mp
    d = mmref.Dag()
    cur_w = d.add("c0"); cur_p = d.add("a0"); cur_t = ["k0"]
    use = list(range(1, n)); rng.shuffle(use)
    cnt = 0
    for i in use[:rng.choice([3, 30, n])]:
        x_w, x_t = d.add("c%d" % i), ["k%d" % i]
        ax = d.add("ax1", [cur_w, x_w])
        new_w = d.add("wi", [x_w, cur_w]); new_t = ["(", *x_t, "->", *cur_t, ")"]
        nd = d.add("mp", [cur_w, new_w, cur_p, ax])
        cur_w, cur_p, cur_t = new_w, nd, new_t
        cnt += 1
        if len(cur_t) > 200: break
    for i in range(k):
        x_w, x_t = d.add("f%d" % i), ["p%d" % i]
        ax = d.add("ax1", [cur_w, x_w])
        new_w = d.add("wi", [x_w, cur_w]); new_t = ["(", *x_t, "->", *cur_t, ")"]
        cur_p = d.add("mp", [cur_w, new_w, cur_p, ax]); cur_w, cur_t = new_w, new_t
    if rng.random() < .5 and k:
        # unfold: use hypotheses th.i to detach some again
        for i in reversed(range(rng.randint(0, k))):
            pass
    L.append("${%s th $p |- %s $= ? $. $}" % (hyps, " ".join(cur_t)))
    L.append("th2 $p |- ( p0 -> ( p1 -> p0 ) ) $= f0 f1 ax1 $.")
    text = "\n".join(L) + "\n"
    return text, {"th": (d, cur_p)}, (["a%d" % i for i in range(n)] if rng.random() < .3 else [])

def wide_db(rng):
    """one assertion with very many hypotheses; compressed references of one to five letters"""
    n = rng.choice([18, 20, 21, 100, 117, 118, 119, 120, 121, 122, 300, 615, 618, 619, 620, 621, 622, 640, 700, 700, 3125])
    L = ["$c |- wff $.", "$v p $. wp $f wff p $.", "${ id.1 $e |- p $. id $a |- p $. $}"]
    for i in range(n): L.append("$c k%d $. c%d $a wff k%d $. a%d $a |- k%d $." % (i, i, i, i, i))
    o = list(range(n)); rng.shuffle(o)
    L.append("${ %s all $a |- k0 $. $}" % " ".join("h%d $e |- k%d $." % (j, i) for j, i in enumerate(o)))
    d = mmref.Dag(); q = rng.choice([0, 0, .1, .5]); w = rng.randrange(n)
    def node(i):
        if i % 7 == 0 and rng.random() < q: return d.add("id", [d.add("c%d" % i), d.add("a%d" % i)])
        return d.add("a%d" % i)
    root = d.add("all", [node(i) for i in o])
    if rng.random() < .4: root = d.add("id", [d.add("c0"), root])
    L.append("th $p |- k0 $= ? $.")
    return "\n".join(L) + "\n", {"th": (d, root)}, []

def relayout(rng, text):
    """change white space between tokens of the whole file (never inside comments)"""
    if rng.random() < .5: return text
    out = []; inc = False
    for t in text.split():
        out.append(t)
        if t == "$(": inc = True
        if t == "$)": inc = False
        out.append(" " if inc else rng.choice([" ", "\n", "\t", "  ", " \n\n ", "\r\n", " \f "]))
    return "".join(out)

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        q = rng.random(); extra = []
        if q < .15: text, pr = c01.miu_db(rng, rng.randint(2, 8))
        elif q < .17: text, pr, extra = wide_db(rng)
        elif q < .4: text, pr, extra = big_db(rng)
        else: text, g, pr = mmgen.make_db(rng, comments=True, nth=rng.randint(3, 16), nax=rng.randint(4, 14))
        db = mmref.parse(text)
        repl = {}; fm = {}
        for s in db.stmts[1:]:
            if s.type != "p" or s.label not in pr: continue
            d, root = pr[s.label]
            fmt = rng.choice(mmgen.FMTS + ["permuted", "permuted-packed"])
            try: mmref.rpn_of(d, root, 6000)
            except mmref.ProofError: fmt = "compressed"
            fm[s.label] = fmt
            if fmt == "compressed" and extra:
                h, b = mmref.enc_compressed(db, s, d, root, rng, extra_labels=[x for x in extra if db.by_label[x].num < s.num])
                if "UV" in b and "UU" not in b: repl[s.label] = mmgen.render_proof(db, s, d, root, "normal", rng)
                else: repl[s.label] = mmgen.wrap_tokens(h + [b[i:i + 60] for i in range(0, len(b), 60)])
            elif fmt.startswith("permuted"):
                toks = mmref.enc_packed(db, s, d, root, explicit=True, names=None if "packed" in fmt else False, perm=rng)
                repl[s.label] = mmgen.wrap_tokens(toks)
            else: repl[s.label] = mmgen.render_proof(db, s, d, root, fmt, rng, comments=True)
        text = subst_proofs(text, repl)
        text = relayout(rng, text)
        db = mmref.parse(text)
        for s in db.stmts[1:]:
            if s.type == "p":
                v = mmref.verify(db, s)
                if not v.ok:
                    if v.kind in ("obsolete-compression",): return
                    raise RuntimeError("generator made an invalid proof: %s %s %s" % (s.label, v.kind, fm.get(s.label)))
        sc.write("a.mm", text)
        labs = [s.label for s in db.stmts[1:] if s.type == "p"]
        if not labs: return
        rng.shuffle(labs)
        cmds = ["read a.mm", "verify proof *"] + ["verify proof " + l for l in labs] + ["verify proof */syntax_only", "verify proof *"]
        if rng.random() < .2: cmds[0] = "read a.mm/verify"
        s = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        if drive.READ_OK not in s.seg(0):
            if "/verify" not in cmds[0]: res.bad("read", "READ rejects a valid database\n" + s.seg(0), files, cmds); return
        if "/verify" in cmds[0] and ALLOK not in s.seg(0): res.bad("read-verify", "READ /VERIFY complains about a valid database\n" + s.seg(0), files, cmds); return
        for j, c in enumerate(cmds[1:], 1):
            o = s.seg(j) or ""
            if "?" in drive.norm(o) and ("?Error" in o or "?Warning" in o or "Warning:" in o) or "Warning:" in o:
                lab = (error_labels(o) or [""])[0]
                res.bad("rejected-" + fm.get(lab, fm.get(c.split()[-1], "?")), "%s complains about valid proofs (format %s)\n%s" % (c, fm.get(lab), o[-2500:]), files, cmds)
        for j in (1, len(cmds) - 1):
            if ALLOK not in (s.seg(j) or ""): res.bad("no-summary", "VERIFY PROOF * of valid proofs does not say all were verified\n" + (s.seg(j) or "")[-1500:], files, cmds)
        for l in labs:
            res.ev((db.by_label[l].proof, fm.get(l))); res.count("fmt-" + fm.get(l, "given"))
        if res.sample is None: res.sample = {"labels": labs[:5], "proof": " ".join(db.by_label[labs[0]].proof)[:200]}

if __name__ == "__main__":
    c = harness.Check("C02", assumptions=["validity is decided by the independent reference verifier in lib/mmref.py", "obsolete-compression signature excluded"])
    ctx = {"bin": harness.build("plain")}
    c.run("valid", case, c.n(4000, 50000), ctx, "random databases (several typecodes, disjoint variables, dummies, nested scopes), MIU-like databases with empty substitutions, and databases with up to 650 labels and 121 mandatory hypotheses; every proof valid and rendered in a random format, label order, sharing, layout and with comments; explicit proofs also with permuted hypotheses")
    c.finish(min_evals=500)
