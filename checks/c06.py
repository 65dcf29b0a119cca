#!/usr/bin/env python3
"""C06: SHOW STATEMENT reports the true frame of every assertion."""
from verify_common import *
import scopegen
from c05 import strip_markup

def pairset(l): return sorted(set(frozenset(p) for p in l), key=sorted)

def field(o, name):
    m = re.search(r"(?m)^" + re.escape(name) + r":  (.*)$", o)
    return m.group(1) if m else None

def show(res, db, s, full, brief, bad):
    o = full
    lines = o.split("\n")
    m = re.search(r"Its statement number for HTML pages is (\d+)\.", o)
    rank = sum(1 for x in db.stmts[1:s.num + 1] if x.type in "ap")
    if not m or int(m.group(1)) != rank: bad("html-number", "statement number for HTML pages: %s, expected %d" % (m and m.group(1), rank))
    head = "%d %s $%s %s %s" % (s.num, s.label, s.type, " ".join(s.math), "$= ... $." if s.type == "p" else "$.")
    if head not in lines: bad("statement", "expected line %r" % head)
    # mandatory hypotheses
    try: i = lines.index("Its mandatory hypotheses in RPN order are:")
    except ValueError: return bad("hyps-missing", "no list of mandatory hypotheses")
    got = []
    for l in lines[i + 1:]:
        if not l.startswith("  "): break
        got.append(l.strip())
    want = ["%s $%s %s $." % (h.label, h.type, " ".join(h.math)) for h in s.mhyps] or ["(None)"]
    if got != want: bad("mandatory-hyps", "mandatory hypotheses %s, expected %s" % (got, want))
    def pairs(name, true):
        f = field(o, name)
        got = f.split(", <") if f else []
        got = [("<" + g) if k else g for k, g in enumerate(got)]
        exp = {}
        for a, b in true: exp["<%s,%s>" % (a, b)] = frozenset((a, b)); exp["<%s,%s>" % (b, a)] = frozenset((a, b))
        unk = [g for g in got if g not in exp]
        if unk and any(", <" in x for x in exp):      # symbols containing the separator
            return res.count("ambiguous-list")
        miss = set(exp.values()) - set(exp.get(g) for g in got)
        if unk: bad(name.split()[1] + "-dv-extra", "%s: not active: %s" % (name, unk))
        if miss: bad(name.split()[1] + "-dv-missing", "%s: missing %s" % (name, [sorted(x) for x in miss]))
        res.count("dv-pairs", len(got))
    pairs("Its mandatory disjoint variable pairs are", s.mdv)
    if s.type == "p":
        f = field(o, "Its optional hypotheses are")
        if (f.split() if f else []) != [h.label for h in s.ohyps]: bad("optional-hyps", "optional hypotheses %s, expected %s" % (f, [h.label for h in s.ohyps]))
        pairs("Its optional disjoint variable pairs are", s.odv)
        f = field(o, "These additional variables are allowed in its proof")
        if sorted(f.split() if f else []) != sorted(s.scope_vars - s.mvars): bad("optional-vars", "additional variables %s, expected %s" % (f, sorted(s.scope_vars - s.mvars)))
    for name in ("The statement and its hypotheses require the variables", "The variables it contains are"):
        f = field(o, name)
        if f == "(None)" and not s.mvars: continue
        if sorted((f or "").split()) != sorted(s.mvars): bad("variables", "%s: %s, expected %s" % (name, f, sorted(s.mvars)))
    # brief form: $d groups and $e hypotheses
    ds = set(); es = []
    for l in brief.split("\n"):
        for g in re.findall(r"(?:^|  )\$d (.*?) \$\.(?=  |$)", l.strip()) if l.startswith("$d ") else []:
            w = g.split()
            for a in range(len(w)):
                for b in range(a): ds.add(frozenset((w[a], w[b])))
        m = re.match(r"(\d+) (\S+) \$e (.*) \$\.$", l)
        if m: es.append((int(m.group(1)), m.group(2), m.group(3)))
    want = [(h.num, h.label, " ".join(h.math)) for h in s.mhyps if h.type == "e"]
    if es != want: bad("brief-hyps", "brief hypotheses %s, expected %s\n%s" % (es, want, brief))
    if ds != set(frozenset(p) for p in s.mdv): bad("brief-dv", "brief $d: %s, expected %s\n%s" % (sorted(map(sorted, ds)), sorted(s.mdv), brief))
    if head not in brief.split("\n"): bad("brief-statement", "expected %r in %s" % (head, brief))

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        if rng.random() < .75: text = scopegen.make(rng, big=rng.random() < .25, dprob=rng.choice([.1, .25, .5]), bad=False, comments=rng.random() < .5)
        else: text, g, pr = mmgen.make_db(rng, nth=rng.randint(2, 6))
        db = mmref.parse(text)
        sc.write("a.mm", text)
        As = db.asserts()
        if len(As) > 40: As = rng.sample(As, 40)
        cmds = ["read a.mm"]
        if rng.random() < .5: cmds.append("verify proof *")
        k0 = len(cmds)
        for s in As: cmds += ["show statement %s /full" % s.label, "show statement %s" % s.label]
        ses = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(ses, files): return
        for i, s in enumerate(As):
            full, brief = ses.seg(k0 + 2 * i), ses.seg(k0 + 2 * i + 1)
            res.ev((tuple(h.label for h in s.mhyps), tuple(sorted(s.mdv)), tuple(sorted(s.odv)), tuple(s.math)))
            res.count("mandatory-hyps", len(s.mhyps)); res.count("optional-hyps", len(s.ohyps))
            if full is None or brief is None: res.bad("desync", "no output", files, cmds); return
            show(res, db, s, full, brief, lambda k, d: res.bad(k, "%s: %s\n%s" % (s.label, d, full[:3000]), files, cmds))
        if res.sample is None and As: s = As[-1]; res.sample = {"label": s.label, "mandatory": [h.label for h in s.mhyps], "dv": sorted(s.mdv)[:4]}

if __name__ == "__main__":
    c = harness.Check("C06", assumptions=["frames are computed by the reference parser in lib/mmref.py from the scoping rules of the language"])
    ctx = {"bin": harness.build("plain")}
    c.run("frames", case, c.n(1500, 20000), ctx, "random databases with nested scopes, redeclared variables, $d in every scope; SHOW STATEMENT with and without /FULL of every assertion compared field by field with the reference frame; every assertion counts")
    c.finish(min_evals=1000)
