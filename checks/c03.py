#!/usr/bin/env python3
"""C03: disjoint-variable restrictions are fully enforced."""
from verify_common import *

def rand_d(rng, names, big=False):
    k = min(len(names), rng.choice([2, 2, 2, 3, 3, 4, 6]))
    return "$d " + " ".join(rng.sample(names, k)) + " $."

def dv_text(rng):
    text, g, pr = mmgen.make_db(rng, comments=False, dvprob=.95, nth=rng.randint(4, 10), nax=rng.randint(5, 9), layout="plain")
    names = [v.name for t in g.gvars for v in g.gvars[t]]
    mode = rng.choice(["keep", "drop", "shrink", "outer", "mixed"])
    # split in lines; theorem blocks begin at the first axiom
    toks = text.split("\n")
    out = []; depth = 0; open_outer = 0
    in_thm = False
    thm_labels = set(pr)
    lines = toks
    # find blocks of top level items
    items = []; cur = []; d = 0
    for l in lines:
        cur.append(l)
        d += l.count("${") - l.count("$}")
        if d == 0 and l.rstrip().endswith(("$.", "$}")): items.append("\n".join(cur)); cur = []
    if cur: items.append("\n".join(cur))
    many = rng.random() < .2; extra = ["zz%d" % i for i in range(13)]
    if many: out.append("$v " + " ".join(extra) + " $.")
    def is_thm(it): return any((" %s $p" % t) in it or it.startswith(t + " $p") or ("\n%s $p" % t) in it for t in thm_labels)
    for it in items:
        thm = is_thm(it)
        if thm:
            def f(m):
                w = m.group(0).split()[1:-1]
                r = rng.random()
                if mode == "keep": return m.group(0)
                if mode in ("drop", "mixed") and r < .4: return ""
                if mode in ("shrink", "mixed") and len(w) > 2 and r < .8:
                    w.pop(rng.randrange(len(w))); return "$d " + " ".join(w) + " $."
                if mode == "outer" and r < .6:
                    moved.append(m.group(0)); return ""
                if mode == "mixed" and r < .9:
                    # same pairs, one by one, or duplicated
                    ps = [(a, b) for i, a in enumerate(w) for b in w[i + 1:]]; rng.shuffle(ps)
                    if rng.random() < .5 and len(ps) > 1: ps = ps[:-1]
                    return " ".join("$d %s %s $." % (rng.choice([p, p[::-1]])) for p in ps)
                return m.group(0)
            moved = []
            it = re.sub(r"\$d [^$]*\$\.", f, it)
            if rng.random() < .25:
                it = "${ " + rand_d(rng, names) + "\n" + it + "\n$}"
            if moved:
                k = rng.randint(1, len(moved))
                it = "${ " + " ".join(moved[:k]) + "\n${ " + " ".join(moved[k:]) + "\n" + it + "\n$}\n$}"
            if many:
                k = rng.randint(0, 13); it = "${ " + ("$d " + " ".join(extra[:k]) + " $. " if k > 1 else "") + rand_d(rng, names + extra[:3]) + "\n" + it + "\n" + "$}"
            if rng.random() < .12: out.append("${ " + rand_d(rng, names)); open_outer += 1
        out.append(it)
        if open_outer and rng.random() < .3: out.append("$}"); open_outer -= 1
    out += ["$}"] * open_outer
    return "\n".join(out) + "\n", pr

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        text, pr = dv_text(rng)
        try: db = mmref.parse(text)
        except mmref.MMError as e: raise RuntimeError("generator: %s" % e)
        # some variable renamings in the proofs (force shared variables)
        repl = {}
        for s in db.stmts[1:]:
            if s.type == "p" and s.label in pr:
                d, root = pr[s.label]
                if rng.random() < .35:
                    for _ in range(6):
                        m = mutate.mut_dag(rng, db, s, d, root)
                        if m and m[0].startswith(("rename", "replace")): d, root = m[1], m[2]; break
                fmt = rng.choice(mmgen.FMTS)
                try: mmref.rpn_of(d, root, 2500)
                except mmref.ProofError: fmt = "compressed"
                repl[s.label] = mmgen.render_proof(db, s, d, root, fmt, rng)
        text = subst_proofs(text, repl)
        db = mmref.parse(text)
        sc.write("a.mm", text)
        labs = [s.label for s in db.stmts[1:] if s.type == "p"]
        cmds = ["read a.mm", "verify proof *"] + ["verify proof " + l for l in labs]
        s = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        if drive.READ_OK not in s.seg(0): res.bad("read", "READ rejects valid source\n" + s.seg(0), files, cmds); return
        allout = norm(s.seg(1))
        for j, l in enumerate(labs):
            o = norm(s.seg(2 + j)); v = mmref.verify(db, db.by_label[l])
            if v.kind not in ("ok", "dv", "wrong-result"): continue
            want = set(); 
            for (lab, a, b, x, y) in v.dv: want.add((lab, tuple(sorted((a, b))), tuple(sorted((x, y)))))
            got = set()
            for m in re.finditer(r'There is a disjoint variable \(\$d\) violation at proof step \d+\. Assertion "(\S+)" requires that variables "(\S+)" and "(\S+)" be disjoint\. But "(\S+)" was substituted with "(.*?)" and "(\S+)" was substituted with "(.*?)"\. (?:These substitutions have variable "(\S+)" in common\.|Variables "(\S+)" and "(\S+)" do not have a disjoint variable requirement in the assertion being proved, "(\S+)"\.)', o):
                pr_ = (m.group(8), m.group(8)) if m.group(8) else (m.group(9), m.group(10))
                if m.group(11) and m.group(11) != l: res.bad("names-wrong-theorem", o, files, cmds)
                got.add((m.group(1), tuple(sorted((m.group(2), m.group(3)))), tuple(sorted(pr_))))
            n = o.count("disjoint variable ($d) violation")
            res.ev((l, tuple(sorted(want)), tuple(db.by_label[l].proof)) if (want or db.by_label[l].mdv or db.by_label[l].odv) else None)
            res.count("violating" if want else "clean"); res.count("pairs", len(want))
            if v.dv and not n: res.bad("dv-missed", "%s violates disjoint variable conditions %s but VERIFY PROOF is silent\n%s" % (l, sorted(want)[:5], o), files, cmds)
            elif n and not v.dv: res.bad("dv-false", "%s has no disjoint variable violation but VERIFY PROOF reports one\n%s" % (l, o[:1500]), files, cmds)
            elif got != want:
                res.bad("dv-pairs", "%s: reported violations differ: missing %s, extra %s\n%s" % (l, sorted(want - got)[:5], sorted(got - want)[:5], o[:2500]), files, cmds)
            if v.kind == "ok" and "?" in o and "?Error" in o: res.bad("dv-other", "valid proof rejected\n" + o[:1000], files, cmds)
            if bool(v.dv) != bool(re.search(r'label "%s", type "\$p": [^?]*?disjoint variable' % re.escape(l), allout)):
                res.bad("dv-star", "VERIFY PROOF * and VERIFY PROOF %s disagree on disjoint variables\n%s" % (l, allout[-1500:]), files, cmds)
            if res.sample is None and want: res.sample = {"theorem": l, "missing pairs": [str(w) for w in sorted(want)[:3]]}

if __name__ == "__main__":
    c = harness.Check("C03", assumptions=["the reference verifier computes the violating pairs"])
    ctx = {"bin": harness.build("plain")}
    c.run("dv", case, c.n(5000, 60000), ctx, "databases whose axioms carry many $d; the $d of theorems kept, dropped, shrunk, split, duplicated, moved to outer scopes or mixed with unrelated outer $d; proofs with renamed variables; exact set of violations (assertion, required pair, offending pair) compared with the reference; non-trivial = the theorem has $d or violations")
    c.finish(min_evals=500)
