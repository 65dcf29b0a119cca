#!/usr/bin/env python3
"""C17: discouragement markers are honoured, and nothing else is blocked."""
from verify_common import *
import random, sys, padrive, pa, deco
import c13, c15
sys.setrecursionlimit(20000)

DECOYS = ["(New usage is discouraged)", "(new usage is discouraged.)", "New usage is discouraged.", "(New usage was discouraged.)", "(Proof modification is discouraged)", "(proof modification is discouraged.)", "(New usage is not discouraged.)", "(Newusage is discouraged.)", "[Proof modification is discouraged.]"]

def before(text, l):
    m = re.search(r"(?:^|(?<=[ \n\t]))%s[ \n\t]+\$[ap](?=[ \n\t])" % re.escape(l), text)
    return m.start() if m else None

def decorate(rng, text, db, usage, modif):
    """markers for the given statements, look-alikes that mean nothing for others"""
    text = deco.mark(rng, text, sorted(usage), deco.USAGE)
    text = deco.mark(rng, text, sorted(modif), deco.MODIF)
    free = [s.label for s in db.asserts() if s.label not in usage and s.label not in modif]
    for l in rng.sample(free, min(len(free), rng.randint(0, 4))):
        p = before(text, l)
        if p is None or text[:p].rstrip().endswith("$)"): continue
        k = rng.random(); real = rng.choice([deco.USAGE, deco.MODIF])
        if k < .5: text = text[:p] + "$( %s $) " % rng.choice(DECOYS) + text[p:]
        elif k < .7: text = text[:p] + "$( %s $)\n$( Another comment. $) " % real + text[p:]     # only the last comment is the description
        elif k < .85: text = text[:p] + "$( %s $) ${ $( Hello. $) " % real + text[p:].replace("$.", "$. $}", 1) if db.by_label[l].type == "a" and "$=" not in text[p:].split("$.")[0] else text
        else:
            q = text.find("$.", p)
            if "$(" not in text[p:q]: text = text[:q] + "$( %s $) " % real + text[q:]       # inside the statement
    # hypotheses with markers are not concerned
    for s in db.stmts[1:]:
        if s.type == "e" and rng.random() < .1:
            m = re.search(r"(?:^|(?<=[ \n\t]))%s[ \n\t]+\$e(?=[ \n\t])" % re.escape(s.label), text)
            if m and not text[:m.start()].rstrip().endswith("$)"): text = text[:m.start()] + "$( %s $) " % deco.USAGE + text[m.start():]
    return text

def expected(db, g, usage, modif):
    out = []
    for s in db.stmts[1:]:
        if s.type not in "ap": continue
        if s.label in modif and s.type == "p": out.append('SHOW DISCOURAGED:  Proof modification of "%s" is discouraged (%d steps).' % (s.label, g.length(s.label, False)))
        if s.label in usage:
            u = g.users(s.label, False)
            out.append('SHOW DISCOURAGED:  New usage of "%s" is discouraged (%d uses).' % (s.label, len(u)))
            out += ['SHOW DISCOURAGED:  "%s" is used by "%s".' % (s.label, x) for x in u]
    return out

def marked_db(r, nth=None):
    text, g, proofs = mmgen.make_db(r, r.choice(["normal", "compressed", "packed", None]), comments=r.random() < .3, nth=nth or r.randint(3, 10))
    db = mmref.parse(text)
    A = [s.label for s in db.asserts()]
    usage = set(r.sample(A, min(len(A), r.randint(0, 5)))); modif = set(r.sample(A, min(len(A), r.randint(0, 5))))
    t = decorate(r, text, db, usage, modif)
    try: db2 = mmref.parse(t)
    except mmref.MMError: return None
    if [s.label for s in db2.asserts()] != [s.label for s in db.asserts()]: return None
    usage, modif = deco.effective(t, db2)
    return text, t, db2, proofs, usage, modif

def show_case(res, rng, ctx):
    """SHOW DISCOURAGED against the reference, also after changes and for a second database"""
    r = rng
    q = [marked_db(r) for _ in range(r.choice([1, 1, 2]))]
    if None in q: return
    cmds = []; want = {}
    for i, (text, t, db, proofs, usage, modif) in enumerate(q):
        if i: cmds.append("erase\ny" if any(c.startswith("save") for c in cmds) else "erase")
        cmds.append('read "t%d.mm"' % i)
        if r.random() < .3: cmds.append(r.choice(["verify proof *", "show labels *", "show usage * /recursive", "set discouragement off", "verify markup * /file_skip", "show proof *"]))
        g = c15.Graph(db, t)
        want[len(cmds)] = expected(db, g, usage, modif); cmds.append("show discouraged")
        # one more proof stored in the session: the list follows
        if r.random() < .4 and proofs:
            l = r.choice(sorted(proofs)); f = r.choice(["normal", "compressed", "packed", "explicit"])
            cmds += ["save proof %s /%s" % (l, f)]
            t2 = None
            if db.by_label[l].type == "p":
                n = len(mmref.rpn_of(*proofs[l]))
                if n < 2000:
                    # after /NORMAL the proof has all its steps
                    if f == "normal":
                        w = [x for x in expected(db, g, usage, modif)]
                        w = [re.sub(r"\(\d+ steps\)", "(%d steps)" % n, x) if x.startswith('SHOW DISCOURAGED:  Proof modification of "%s" ' % l) else x for x in w]
                        want[len(cmds)] = w; cmds.append("show discouraged")
    files = {"t%d.mm" % i: x[1] for i, x in enumerate(q)}
    with drive.Scratch() as sc:
        for n, t in files.items(): sc.write(n, t)
        s = drive.run(ctx["asan"] if r.random() < .15 else ctx["plain"], cmds, sc.d)
    if not res.check_session(s, files): return
    for i, c in enumerate(cmds):
        if c.startswith("read") and drive.READ_OK not in s.seg(i): res.unsure("read failed"); return
    for i, w in want.items():
        got = [l for l in s.seg(i).split("\n") if l.strip()]
        res.ev(("show", len(w), len(q), i), n=max(1, len(w))); res.count("lines of SHOW DISCOURAGED", len(w))
        if got != w:
            a = [x for x in w if x not in got]; b = [x for x in got if x not in w]
            res.bad("show-discouraged", "SHOW DISCOURAGED %s\nmissing: %s\nunexpected: %s" % ("" if a or b else "lists lines in the wrong order or number", a[:4], b[:4]), files, cmds); return
    res.sample = cmds

REFUSED = re.compile(r"\?Error: (Attempt to (assign|overwrite)|Modification of this)")

def block_case(res, rng, ctx):
    """the same session on a database with markers and on one without"""
    r = rng
    st = c13.setup(r, small=90)
    if st is None: return
    text, db, s, dag, root = st
    A = [x.label for x in db.asserts()]
    inref = sorted(set(x for x, ks in dag.nodes if x in db.by_label and db.by_label[x].type in "ap"))
    usage = set(r.sample(inref, min(len(inref), r.randint(0, 3))) + r.sample(A, min(len(A), r.randint(0, 4))))
    modif = set(r.sample(A, min(len(A), r.randint(0, 3))) + ([s.label] if r.random() < .4 else []))
    if s.label in modif and r.random() < .2: modif.discard(s.label)
    t = decorate(r, text, db, usage, modif)
    try: dbm = mmref.parse(t)
    except mmref.MMError: return
    if [x.label for x in dbm.asserts()] != A: return
    usage, modif = deco.effective(t, dbm)      # decided by the text alone
    with drive.Scratch() as sc, drive.Scratch() as sc2:
        sc.write("t.mm", t); sc2.write("t.mm", text)
        x = padrive.Run(res, r, ctx["asan"] if r.random() < .1 else ctx["plain"], sc, t, dbm, dbm.by_label[s.label], dag, root)
        y = pa.PA(ctx["plain"], sc2.d, timeout=90)
        files = {"t.mm": t, "unmarked.mm": text}; x.files = files
        off = False
        x.answer = lambda p, tx: ""
        def bad(key, d): x.bad("C17", key, d)
        def ystate(): return y.cmd("show new_proof /all /lemmon")
        try:
            o = x.p.cmd('read "t.mm"'); y.cmd('read "t.mm"')
            if drive.READ_OK not in o: res.unsure("read failed"); return
            if r.random() < .2: x.p.cmd("set discouragement off"); off = True
            if r.random() < .15: x.p.cmd("set discouragement off"); x.p.cmd("set discouragement on"); off = False
            # entering the Proof Assistant
            o = x.p.cmd("prove %s" % s.label)
            blocked = s.label in modif and not off
            res.ev(("prove", blocked, off)); res.count("prove " + ("blocked" if blocked else "free"))
            if ("MM-PA> " in x.p.prompt) == blocked: bad("prove", "PROVE %s %s although its proof modification is %sdiscouraged%s:\n%s" % (s.label, "works" if blocked else "is refused", "" if s.label in modif else "not ", " and SET DISCOURAGEMENT is OFF" if off else "", o))
            elif blocked:
                o = x.p.cmd("prove %s /override" % s.label)
                if "MM-PA> " not in x.p.prompt: bad("prove", "PROVE %s /OVERRIDE is refused:\n%s" % (s.label, o))
            if x.viol: raise pa.Died()
            y.cmd("prove %s" % s.label)
            v = mmref.verify_dag(dbm, x.s, dag, root); x.refx = v.exprs or {}
            if not x.observe(): raise pa.Died()
            x.stack = [(x.state, "", False)]; x.ptr = 0
            if x.state != ystate(): bad("differs", "the proof that PROVE starts with depends on the markers"); raise pa.Died()
            ch = padrive.Chooser(x, r, dict(undo=0, redo=0, setundo=0, save=0, error=.5, inert=.5, guided=16, replace=5, improve=7, minimize=4, match=0, delete=4, expand=1))
            for _ in range(r.randint(4, 16)):
                if x.viol: break
                if len(x.rpn) > 300: break
                k = r.random()
                if k < .04:
                    off = not off; x.p.cmd("set discouragement " + ("off" if off else "on")); continue
                if k < .12:
                    c = "save new_proof" + r.choice(["", " /compressed", " /normal"]); ov = r.random() < .4
                    cc = c + (r.choice([" /override", "/ov"]) if ov else "")
                    bl = s.label in modif and not ov and not off
                    src0 = x.p.cmd("show source %s" % s.label)
                    o = x.p.cmd(cc)
                    src1 = x.p.cmd("show source %s" % s.label)
                    res.ev(("save", bl, ov, off)); res.count("save " + ("blocked" if bl else "free"))
                    if bl and (not REFUSED.search(o) or src0 != src1): bad("save", "%r overwrites the proof of %s, whose modification is discouraged:\n%s" % (cc, s.label, o))
                    elif not bl and ("has been saved" not in o): bad("save", "%r is refused (proof of %s, modification %sdiscouraged):\n%s" % (cc, s.label, "" if s.label in modif else "not ", o))
                    if not bl: y.cmd(c)
                    continue
                c = ch.next(); w = c.split()
                if w[0] in ("read", "prove", "erase", "write", "show") or "/ov" in c and w[0] not in ("assign", "replace", "improve", "minimize_with"): continue
                c = c.replace(" /override", "")
                if "interactive" in c: continue
                ov = w[0] in ("assign", "replace", "improve", "minimize_with") and r.random() < .25
                cc = c + (r.choice([" /override", "/overr"]) if ov else "")
                free = ov or off
                before_l = set(x.rpn); b0 = x.state; brpn = list(x.rpn)
                okd = x.do(cc)
                x.viol = [q for q in x.viol if q[0] == "C17"]
                if not okd: break
                out = x.out
                lab = w[2] if w[0] in ("assign", "replace") and len(w) > 2 else None
                ref = REFUSED.search(out)
                if ref and (lab is None or lab not in usage or free):
                    bad("blocked", "%r is refused although %s%s:\n%s" % (cc, "the statement is not marked" if lab not in usage else "it may be used", "", out)); break
                if lab in usage and lab in dbm.by_label and dbm.by_label[lab].num < x.s.num and not free:
                    res.ev(("refused", w[0], dbm.by_label[lab].type)); res.count("%s of a marked statement" % w[0])
                    if x.state != b0: bad("not-blocked", "%r uses %s although its new usage is discouraged:\n%s" % (cc, lab, out)); break
                    continue
                y.cmd(c, lambda p, tx: "")
                new = set(x.rpn) - before_l
                if w[0] in ("assign", "replace", "improve", "minimize_with") and not free:
                    m = sorted(new & usage)
                    res.ev((w[0], "new", bool(new), len(m))); 
                    if m: bad("not-blocked", "%r introduced %s although its new usage is discouraged" % (cc, ", ".join(m))); break
                ys = ystate()
                yn = pa.parse_normal(y.cmd("show new_proof /normal")) or []
                # what the unmarked session newly used
                ynew = count_new(brpn, yn) & usage
                if free or not (w[0] in ("improve", "minimize_with", "replace")) or not ynew:
                    res.ev(("same", w[0], free, x.state != b0))
                    res.count("compared " + w[0] + (" with override" if free else ""))
                    if ys != x.state and canon(ys) == canon(x.state): break       # numbered differently
                    if ys != x.state:
                        if w[0] in ("improve", "minimize_with", "replace") and not free:
                            # a marked statement tried on the way may matter: take it back on both sides
                            if not usage: bad("differs", "%r gives another proof although nothing is marked" % cc)
                            res.count("different search"); break
                        bad("differs", "%r gives another proof than in the database without markers%s:\n--- with\n%s\n--- without\n%s" % (cc, " although discouragement is overridden" if free else "", x.state, ys)); break
                    if ov and not off and lab in usage and x.state != b0 and "discouraged" not in out: bad("no-warning", "%r overrides the discouragement of %s without a warning" % (cc, lab)); break
                else:
                    res.count("marked statement avoided by " + w[0])
                    break
        except pa.Died: pass
        ss = x.p.session(); y.close()
        if not res.check_session(ss, files, "proof assistant session"): return
        x.report({"C17"})
        res.sample = x.history

def canon(t):
    """work variables in order of appearance"""
    m = {}
    return re.sub(r" +", " ", re.sub(r"\$(\d+)", lambda k: "$" + m.setdefault(k.group(1), str(len(m) + 1)), t))

def count_new(a, b):
    """labels that occur in b more often than in a"""
    return set(q for q in set(b) if b.count(q) > a.count(q))

if __name__ == "__main__":
    c = harness.Check("C17", assumptions=["a use is a reference in the stored proof; the number of steps is that of the stored proof (a compressed proof counts a local reference as one step)", "EXPAND, LET and MATCH are outside the claim"])
    ctx = {"plain": harness.build("plain"), "asan": harness.build("asan")}
    c.run("show", show_case, c.n(3000, 40000), ctx, "SHOW DISCOURAGED against the marked statements, their uses and step counts from independently decoded proofs; markers with line breaks, look-alikes, markers in other places; after SAVE PROOF and after ERASE")
    c.run("block", block_case, c.n(3500, 40000), ctx, "twin Proof Assistant sessions on a marked and an unmarked database: refusals, overrides, and equality of the proofs")
    c.finish(min_evals=1000)
