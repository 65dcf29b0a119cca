#!/usr/bin/env python3
"""C07: SHOW PROOF listings state what each step proves."""
from verify_common import *

LINE = re.compile(r"^ *(\d+) ( *)(.*?) +\$([aefp?]) (.*)$")

def ref_steps(db, s):
    return mmref.link_steps(db, s, mmref.raw_steps(db, s))

def expected(db, s, st, q):
    """list of (number, text before formula without blanks between columns, depth, type, formula) for the qualifier dict q"""
    n = len(st)
    st = list(st)
    skip = q.get("no_repeated")
    ess = not q.get("all"); lem = q.get("lemmon")
    ref = [x.ref for x in st]
    if skip:
        first = {}
        for i, x in enumerate(st):
            if x.ref is None and x.label != "?" and not db.by_label[x.label].mhyps:
                if x.label in first: ref[i] = first[x.label]
                else: first[x.label] = i
            if x.ref is None and x.label != "?" and db.by_label[x.label].type in "ef":
                if x.label in first and first[x.label] != i: ref[i] = first[x.label]
                else: first.setdefault(x.label, i)
        for i in range(n):
            if ref[i] is not None and ref[ref[i]] is not None: ref[i] = ref[ref[i]]
    num = [0] * n; k = 0
    for i, x in enumerate(st):
        if q.get("renumber") and ess and not x.ess: continue
        if skip and (ref[i] is not None or x.label == "?"): continue
        k += 1; num[i] = k
    named = set(r for r in ref if r is not None)
    # a reference to a step that is itself a reference stays as given by the stored proof
    out = []
    for i, x in enumerate(st):
        if q.get("from") and i + 1 < q["from"]: continue
        if q.get("to") and i + 1 > q["to"]: continue
        if q.get("depth") and x.depth + 1 > q["depth"]: continue
        if ess and not x.ess: continue
        if skip and num[i] == 0: continue
        if ref[i] is not None: typ = db.by_label[st[ref[i]].label].type
        elif x.label == "?": typ = "?"
        else: typ = db.by_label[x.label].type
        if lem:
            if ref[i] is not None: src = "@%d" % num[ref[i]]
            elif x.label == "?": src = "?"
            else:
                hs = []
                for h, kk in zip(db.by_label[x.label].mhyps, x.kids):
                    if ess and h.type != "e": continue
                    j = kk if not (skip and num[kk] == 0) else ref[kk]
                    hs.append("?" if j is None else str(num[j]))
                src = ((",".join(hs) + " ") if hs else "") + x.label
            if i in named and not skip and ref[i] is None: src += " @%d:" % num[i]
        else:
            src = x.target + "=" + (str(num[ref[i]]) if ref[i] is not None else x.label)
            if i in named and ref[i] is None: src = "%d:%s" % (num[i], src)
        out.append((num[i], src, x.depth, typ, x.expr))
    if q.get("reverse"): out.reverse()
    return out

def parse(o):
    out = []
    for l in o.split("\n"):
        if not l.strip(): continue
        m = LINE.match(l)
        if not m: return None, l
        out.append((int(m.group(1)), m.group(2), m.group(3), m.group(4), m.group(5).split(), m.start(2)))
    return out, None

def listing(res, db, s, st, q, o, bad):
    want = expected(db, s, st, q)
    got, err = parse(o)
    if got is None: return bad("format", "unrecognised line %r" % err)
    if len(got) != len(want): return bad("steps", "%d steps listed, expected %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        if g[0] != w[0]: return bad("number", "step number %d, expected %d" % (g[0], w[0]))
        if norm(g[2]) != w[1]: return bad("label", "step %d shows %r, expected %r" % (w[0], norm(g[2]), w[1]))
        if not q.get("lemmon"):
            ind = len(g[1]) + (len(w[1].split(":")[0]) + 1 if ":" in w[1].split("=")[0] else 0)
            if ind != 2 * w[2] and len(g[1]) > 0: return bad("indent", "step %d is indented by %d, expected %d" % (w[0], ind, 2 * w[2]))
        if g[3] != w[3]: return bad("type", "step %d has type $%s, expected $%s" % (w[0], g[3], w[3]))
        if w[4] is not None and g[4] != w[4]: return bad("formula", "step %d shows %s, expected %s" % (w[0], " ".join(g[4]), " ".join(w[4])))
        res.count("steps")

def detail(res, db, s, st, k, o, bad):
    x = st[k - 1]; t = norm(o)
    real = x if x.ref is None else st[x.ref]
    typ = db.by_label[real.label].type
    m = re.search(r"Proof step (\d+): (?:\S+:)?([^ =:]+)=(\S+) \$(.) (.*?) This step assigns (.*?)(?: This step also declares the local label (\S+), which is used later on\.)?(?: The source assertion requires (no hypotheses|the hypothes[ie]s .*?)\.)? The (?:parent assertion of the target hypothesis is \"([^\"]+)\" \(\$(.), step (\d+)\)|target has no parent because it is the assertion being proved)\.", t)
    if not m: return bad("detail-format", "unrecognised text")
    if int(m.group(1)) != k or m.group(2) != x.target or m.group(4) != typ or m.group(5).split() != x.expr: return bad("detail-step", "wrong step line")
    if x.ref is None and m.group(3) != x.label: return bad("detail-label", "source %s, expected %s" % (m.group(3), x.label))
    asg = m.group(6)
    if x.ref is None: e = 'source "%s" ($%s) to ' % (x.label, typ)
    else: e = "step %d (via local label reference \"%s\") to " % (x.ref + 1, m.group(3))
    e += "the final assertion being proved." if k == len(st) else 'target "%s" ($%s).' % (x.target, db.by_label[x.target].type)
    if asg != e: return bad("detail-assign", "says 'assigns %s', expected 'assigns %s'" % (asg, e))
    if (m.group(7) is not None) != any(y.ref == k - 1 for y in st): return bad("detail-declares", "local label declaration wrongly shown or missing")
    if x.ref is None and typ in "ap":
        h = re.findall(r'"([^"]+)" \(\$(.), step (\d+)\)', m.group(8) or "")
        want = [(q.label, q.type, str(c + 1)) for q, c in zip(db.by_label[x.label].mhyps, x.kids)]
        if h != want: return bad("detail-hyps", "hypotheses %s, expected %s" % (h, want))
    if k < len(st):
        p = st[x.parent]
        if (m.group(9), m.group(11)) != (p.label, str(x.parent + 1)): return bad("detail-parent", "parent %s step %s, expected %s step %d" % (m.group(9), m.group(11), p.label, x.parent + 1))
    elif m.group(9): return bad("detail-parent", "the last step has a parent")
    def subs(title, stmt, sg, part):
        i = part.find(title)
        if i < 0: return bad("detail-subst", "no substitution list for " + title)
        p = part[i:].split("\n")
        if norm(p[1]) != "%s $%s %s" % (stmt.label, stmt.type, " ".join(stmt.math)): return bad("detail-source", "%s: %r" % (title, p[1]))
        got = {}
        if p[3].strip() != "(None)":
            for l in p[4:]:
                if not l.startswith("     "): break
                w = l.split(); got[w[0]] = w[1:]
        if got != sg: return bad("detail-subst", "%s substitutions %s, expected %s" % (title, got, sg))
        res.count("substitutions", len(got))
    def sigma(q, y, vs): return {h.math[1]: st[c].expr[1:] for h, c in zip(q.mhyps, y.kids) if h.type == "f" and h.math[1] in vs}
    if x.ref is None and typ in "ap":
        q = db.by_label[x.label]; subs("The source assertion before substitution was:", q, sigma(q, x, set(q.math)), o)
    if k < len(st):
        p = st[x.parent]; q = db.by_label[p.label]; h = db.by_label[x.target]
        subs("The target hypothesis before substitution was:", h, sigma(q, p, set(h.math)), o)

def summary(res, db, s, st, allf, o, bad):
    used = sorted({db.by_label[x.label].num for x in st if x.ref is None and x.label != "?" and db.by_label[x.label].type in "ap" and (allf or x.ess)})
    got = re.findall(r"(?m)^Statement (\S+) is located on line (\d+) of the file \"a\.mm\"\.", o)
    want = [db.stmts[i].label for i in used]
    if [g[0] for g in got] != want: return bad("summary-list", "lists %s, expected %s" % ([g[0] for g in got], want))
    parts = re.split(r"(?m)^Statement \S+ is located.*$", o)[1:]
    for i, p, g in zip(used, parts, got):
        q = db.stmts[i]
        lines = [l[2:] for l in p.split("\n") if l.startswith("  ") and re.match(r"  \S+ \$[aefp] ", l)]
        w = ["%s $%s %s $." % (h.label, h.type, " ".join(h.math)) for h in q.mhyps if allf or h.type == "e"] + ["%s $%s %s%s $." % (q.label, q.type, " ".join(q.math), " $= ..." if q.type == "p" else "")]
        if lines != w: return bad("summary-entry", "entry %s, expected %s" % (lines, w))
        ln = text_line(db.src, q.kpos)
        if int(g[1]) != ln: return bad("summary-line", "%s is on line %s, expected %d" % (q.label, g[1], ln))

def text_line(t, p): return t.count("\n", 0, p) + 1

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        fmt = rng.choice(["normal", "compressed", "compressed", "packed", "packed-explicit", None])
        text, g, pr = mmgen.make_db(rng, fmt, nth=rng.randint(2, 8))
        db = mmref.parse(text)
        P = [s for s in db.stmts[1:] if s.type == "p"]
        if rng.random() < .3:      # some incomplete proofs
            repl = {}
            for s in P:
                if rng.random() < .4:
                    d, root = pr[s.label]
                    try: mmref.rpn_of(d, root, 3000)
                    except mmref.ProofError: continue
                    m = mutate.dag_clone_replace(d, root, (lambda i: lambda nd, l, k, o: nd.add("?") if o == i else None)(rng.randrange(len(d.nodes))))
                    repl[s.label] = mmgen.render_proof(db, s, m[0], m[1], rng.choice(["normal", "compressed", "packed"]), rng)
            text = subst_proofs(text, repl); db = mmref.parse(text)
            P = [s for s in db.stmts[1:] if s.type == "p"]
        db.src = text
        sc.write("a.mm", text)
        if not P: return
        steps = {}
        for s in P: steps[s.label] = ref_steps(db, s)
        P = [s for s in P if len(steps[s.label]) < 800]
        if len(P) > 6: P = rng.sample(P, 6)
        cmds = ["read a.mm"]; jobs = []
        if rng.random() < .3: cmds.append("verify proof *")
        for s in P:
            st = steps[s.label]; n = len(st)
            unk = any(x.label == "?" for x in st)
            for _ in range(rng.randint(2, 5)):
                k = rng.random(); q = {}; c = "show proof " + s.label
                if k < .15 and not unk:
                    d = rng.randint(1, n); cmds.append(c + "/detailed_step %d" % d); jobs.append((len(cmds) - 1, "detail", s, d)); continue
                if k < .25:
                    a = rng.random() < .4; cmds.append(c + "/statement_summary" + ("/all" if a else "")); jobs.append((len(cmds) - 1, "summary", s, a)); continue
                if k < .3: cmds.append(c + "/size"); jobs.append((len(cmds) - 1, "size", s, None)); continue
                if rng.random() < .5: q["all"] = 1; c += "/all"
                elif rng.random() < .3: c += "/essential"
                if rng.random() < .4: q["lemmon"] = 1; c += "/lemmon"
                if q.get("lemmon") and rng.random() < .4: q["no_repeated"] = 1; c += "/no_repeated_steps"
                if q.get("lemmon") and rng.random() < .2: c += "/start_column %d" % rng.choice([10, 30, 50])
                if rng.random() < .3: q["renumber"] = 1; c += "/renumber"
                if rng.random() < .2: q["reverse"] = 1; c += "/reverse"
                if rng.random() < .2: q["from"] = rng.randint(1, n); c += "/from_step %d" % q["from"]
                if rng.random() < .2: q["to"] = rng.randint(1, n); c += "/to_step %d" % q["to"]
                if rng.random() < .2: q["depth"] = rng.randint(1, 8); c += "/depth %d" % q["depth"]
                cmds.append(c); jobs.append((len(cmds) - 1, "list", s, q))
        ses = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(ses, files): return
        for i, kind, s, q in jobs:
            o = ses.seg(i)
            if o is None: res.bad("desync", "no output", files, cmds); return
            st = steps[s.label]
            def bad(k, d): res.bad(k, "%s (case format %s): %s\n%s\nproof: %s" % (cmds[i], fmt, d, o[:3000], " ".join(s.proof)[:1000]), files, ["read a.mm", cmds[i]])
            res.ev((kind, tuple(s.proof), repr(q)))
            res.count(kind)
            if kind == "list": listing(res, db, s, st, q, o, bad)
            elif kind == "size":
                a, b = s.proof_text
                if 'The proof source for "%s" has %d characters.' % (s.label, b - a) not in o: bad("size", "expected %d" % (b - a))
            elif kind == "detail": detail(res, db, s, st, q, o, bad)
            else: summary(res, db, s, st, q, o, bad)
        if jobs and res.sample is None: res.sample = {"command": cmds[jobs[0][0]], "output": (ses.seg(jobs[0][0]) or "")[:300]}

if __name__ == "__main__":
    c = harness.Check("C07", assumptions=["step sequences are decoded and evaluated by lib/mmref.py"])
    ctx = {"bin": harness.build("plain")}
    c.run("listings", case, c.n(5000, 60000), ctx, "random databases with complete and incomplete proofs in all stored formats; SHOW PROOF with random combinations of /ALL /ESSENTIAL /LEMMON /NO_REPEATED_STEPS /RENUMBER /REVERSE /FROM_STEP /TO_STEP /DEPTH, /DETAILED_STEP and /STATEMENT_SUMMARY; every listed line (number, label, references, indentation, type, formula) compared with the reference")
    c.finish(min_evals=1000)
