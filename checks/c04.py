#!/usr/bin/env python3
"""C04: READ accepts exactly the well-formed sources."""
from verify_common import *
import scopegen

KW = ["$c", "$v", "$f", "$e", "$a", "$p", "$d", "$=", "$.", "${", "$}", "$(", "$)", "$[", "$]", "$x", "$", "$$"]

def split_toks(text):
    """[(token, start, end, in_comment)]"""
    out = []; inc = False
    for m in re.finditer(r"[^ \t\n\r\f]+", text):
        t = m.group(0)
        if t == "$(": inc = True
        out.append((t, m.start(), m.end(), inc))
        if t == "$)": inc = False
    return out

def mutate_src(rng, text):
    toks = split_toks(text)
    code = [k for k, t in enumerate(toks) if not t[3]]
    stm = [m for m in re.finditer(r"(?:(?<=\s)|^)(?:(?:[^\s$]+\s+)?\$[cvdfea]\s[^$]*\$\.)", text)]
    op = rng.choice(["del", "del", "dup", "swap", "rep", "rep", "inskw", "delstmt", "delstmt", "dupstmt", "movestmt", "char", "comment", "glue", "badname", "decl", "scope", "label", "label", "symcase", "header"])
    if not code: return op, text
    p = rng.choice(code); t, a, b, _ = toks[p]
    def cut(a, b, new): return text[:a] + new + text[b:]
    if op == "del": return op, cut(a, b, "")
    if op == "dup": return op, cut(a, b, t + " " + t)
    if op == "swap":
        q = min(p + 1, len(toks) - 1); t2, a2, b2, _ = toks[q]
        if q == p: return op, text
        return op, text[:a] + t2 + text[b:a2] + t + text[b2:]
    if op == "rep": return op, cut(a, b, toks[rng.choice(code)][0])
    if op == "inskw": return op, cut(a, a, rng.choice(KW) + rng.choice([" ", "\n"]))
    if op == "delstmt" and stm:
        m = rng.choice(stm); return op, cut(m.start(), m.end(), "")
    if op == "dupstmt" and stm:
        m = rng.choice(stm); return op, cut(m.end(), m.end(), " " + m.group(0) + "\n")
    if op == "movestmt" and stm:
        m = rng.choice(stm); s = m.group(0); t2 = cut(m.start(), m.end(), "")
        tk = [x for x in split_toks(t2) if x[0] in ("$.", "${", "$}") and not x[3]]
        if not tk: return op, text
        x = rng.choice(tk); return op, t2[:x[2]] + " " + s + " " + t2[x[2]:]
    if op == "char":
        k = rng.randrange(a, b); c = rng.choice(["$", "\x01", "\x7f", "\xe9", "*", "/", "(", ":", "=", "~", "'", "\\"])
        return op, cut(k, k + rng.randint(0, 1), c)
    if op == "comment":
        return op, cut(a, a, rng.choice(["$( ok $) ", "$( a $( b $) ", "$( a $( b $) c $) ", "$( no end ", "$) ", "$( x$) y $) ", "$( $a $p $. $) ", "$( \xe9 $) ", "$( $) "]))
    if op == "glue" and p + 1 < len(toks): return op, cut(b, toks[p + 1][1], "")
    if op == "badname": return op, cut(a, b, t + rng.choice(["_x", "-", ".", "#", "%", "@", "'", "1"]))
    if op == "decl":
        syms = re.findall(r"\S+", " ".join(m.group(0)[2:-2] for m in stm if m.group(0)[:2] in ("$c", "$v"))) or ["x"]
        x, y = rng.choice(syms), rng.choice(syms + ["newsym"])
        return op, cut(a, a, rng.choice(["$c %s $. ", "$v %s $. ", "$d %s $. ", "$c %s $. ", "$v %s $. ", "ff $f wff %s $. ", "ee $e %s $. ", "aa $a %s $. ", "aa $a |- %s $. ", "$c $. ", "$v $. ", "$d $. ", "$d %s %s $. ", "aa $p |- %s $= ? $. ", "aa $p %s $. ", "fg $f %s %s $. ", "fh $f |- %s %s $. ", "fi $f setvar %s $. ", "fi $f |- $. ", "$v %s %s $. ", "${ $v nv $. nf $f wff nv $. $} ", "${ $v %s $. ff $f class %s $. $} ", "${ $v nv $. nf $f wff nv $. ng $f wff nv $. $} ", "${ $v nv $. $d nv %s $. $} $d nv %s $. ", "${ $c nc $. $} ", "${ $v nv $. $} nf $f wff nv $. ", "${ $v nv $. na $a |- nv $. $} ", "${ $v nv $. ne $e |- nv $. $} ", "${ $v nv $. ne $e |- %s nv $. nf $f wff nv $. $} ", "${ $v nv mv $. nf $f wff nv $. ne $e |- nv $. mf $f wff mv $. me $e |- mv nv $. $} "]).replace("%s", x, 1).replace("%s", y))
    if op == "scope": return op, cut(a, a, rng.choice(["${ ", "$} ", "${ $} ", "$} ${ "]))
    if op == "label":
        labs = [m for m in re.finditer(r"(?<=\s)([^\s$]+)(?=\s+\$[feap]\s)", text)]
        if not labs: return op, text
        m = rng.choice(labs)
        syms = re.findall(r"\S+", " ".join(x.group(0)[2:-2] for x in stm if x.group(0)[:2] in ("$c", "$v")))
        new = rng.choice([rng.choice(labs).group(0), rng.choice(syms or ["x"]), m.group(0) + "$", m.group(0) + "*", "a b", "", m.group(0).upper(), m.group(0) + " " + m.group(0)])
        return op, cut(m.start(), m.end(), new)
    if op == "symcase": return op, cut(a, b, t.swapcase())
    if op == "header": return op, rng.choice(["", "x", "$( c $)", "$.", "$}", "  \n", "$( $) $( $) $c z $.", "$c z $. $( unfinished", "$c z $. lab", "$c z", "l $p $= $.", "l $a $.", "$c |- $. l $p |- $=  $.", "$c |- $. l $p |- $= ? $."]) + ("\n" if rng.random() < .8 else "")
    return op, text

# rules the reference applies but for which the program's leniency is documented or not a language question
def counts(db): return len(db.stmts) - 1, sum(s.type == "a" for s in db.stmts[1:]), sum(s.type == "p" for s in db.stmts[1:])

def one(res, text, ctx, sc, op):
    try: db = mmref.parse(text); err = None
    except mmref.MMError as e: db = None; err = e
    sc.write("a.mm", text)
    cmds = ["read a.mm", "show statement nosuch"]
    s = drive.run(ctx["bin"], cmds, sc.d)
    files = {"a.mm": text}
    if not res.check_session(s, files): return
    o = s.seg(0)
    ok = drive.READ_OK in o and "?Error" not in o
    res.ev((op, err.rule if err else "ok", hash(text)))
    res.count("ok" if err is None else "reject-" + err.rule)
    if err is None and not ok: res.bad("rejected", "READ rejects a well-formed source (%s)\n%s" % (op, o[-1500:]), files, cmds)
    elif err is not None and ok:
        res.bad("accepted-" + err.rule, "READ accepts a source that breaks the rule '%s' at offset %s: ...%s...\n%s" % (err.rule, err.pos, text[max(0, (err.pos or 0) - 60):(err.pos or 0) + 40], o[-600:]), files, cmds)
    elif err is None:
        m = re.search(r"The source has (\d+) statements; (\d+) are \$a and (\d+) are \$p", o)
        if not m or tuple(map(int, m.groups())) != counts(db):
            res.bad("counts", "statement counts %s, expected %s\n%s" % (m and m.groups(), counts(db), o), files, cmds)
    else:
        m = re.search(r'\?Error on line (\d+) of file "([^"]*)"', o)
        if not m: 
            if "?Error" not in o and not re.search(r"^\?", o, re.M): res.bad("no-message", "no error message\n" + o, files, cmds)
            return
        ln = int(m.group(1)); want = text.count("\n", 0, err.pos) + 1
        res.count("line-same" if ln == want else "line-differs")
        if LINE_DEBUG and len(op.split()) == 1: res.count("LINE %s %s" % (err.rule, ln == want))
        if m.group(2) != "a.mm": res.bad("file", "error names file %r\n%s" % (m.group(2), o[:500]), files, cmds)

LINE_DEBUG = bool(os.environ.get("LINE_DEBUG"))

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        if rng.random() < .5: text = scopegen.make(rng, big=rng.random() < .3)
        else: text, g, pr = mmgen.make_db(rng, comments=rng.random() < .5, nth=rng.randint(1, 5), nax=rng.randint(1, 4), ncons=rng.randint(2, 5))
        for i in range(12):
            t = text; op = ""
            if i == 0: one(res, t, ctx, sc, "none"); continue
            for _ in range(rng.choice([1, 1, 1, 2])):
                o, t = mutate_src(rng, t); op += o + " "
            one(res, t, ctx, sc, op)

SNIPS = ["$c {c} $.", "$v {v} $.", "qz $a nosuchsym $.", "qz $a |- nosuchsym $.", "$d {v} {v} $.", "$x", "qa qb $a |- {v} $.",
         "q* $a |- {v} $.", "$a |- {v} $.", "$f wff {v} $.", "qz $c qqq $.", "qz ${ $}", "qz $f {t} {v} {v} $.", "qz $e {v} $.", "qz $p |- {v} $= ? $= $.",
         "qz $a |- {v} $= ? $.", "qz $a |- $p {v} $.", "$d {v} $.", "$c $.", "$v $.", "$c q\x07q $.", "$( \x80 $)", "$)", "$} ", "qz $p |- {v} $.",
         "$d {v} {c} $.", "qz $f {t} {c} $.", "qz $f {v} {v} $.", "qz $a $.", "{c} $a |- {v} $.", "$c {l} $.", "$v {l} $.", "$( $( $)", "qz $f {t} {v} $.",
         "${{ $v nv $. qz $a |- nv $. $}}", "${{ $c qq $. $}}", "${{ $v nv $. qz $e |- nv $. $}}", "$c a$b $.", "q$b $a |- {v} $.", "$c {v} $.", "$v {c} $.", "$=", "$.", "$[", "qz $a |- {v} $. $. "]

def fill(s, **k):
    for a, b in k.items(): s = s.replace("{%s}" % a, b)
    return s

def fault(res, rng, ctx):
    """one self-contained faulty snippet on a line of its own: reported with that line"""
    with drive.Scratch() as sc:
        text, g, pr = mmgen.make_db(rng, comments=rng.random() < .5, nth=rng.randint(1, 4), nax=rng.randint(1, 4), ncons=rng.randint(2, 5))
        db = mmref.parse(text)
        toks = split_toks(text)
        # boundaries: end of statements, at any scope depth
        ends = [t[2] for t in toks if t[0] in ("$.", "${", "$}") and not t[3]]
        v = rng.choice([x for t in g.gvars for x in g.gvars[t]])
        first = next(t[1] for t in toks if t[0] == v.flabel)
        ends = [e for e in ends if e > text.index("$.", first)]
        labs = [x for x in db.stmts[1:] if x.label and x.label not in (v.flabel,)]
        for i in range(10):
            sn = rng.choice(SNIPS)
            e = rng.choice(ends)
            before = [x.label for x in labs if x.pos < e and x.type != "e"]
            if not before: continue
            t = sn.replace("{{", "{").replace("}}", "}") if "{{" in sn else fill(sn, c=rng.choice(sorted(db.consts)), v=v.name, t=v.typ, l=rng.choice(before))
            new = text[:e] + "\n" + t + "\n" + text[e:]
            line = new.count("\n", 0, e) + 2
            try: mmref.parse(new); raise RuntimeError("snippet is no fault: " + t)
            except mmref.MMError as er: rule = er.rule
            sc.write("a.mm", new)
            cmds = ["read a.mm"]
            s = drive.run(ctx["bin"], cmds, sc.d)
            files = {"a.mm": new}
            if not res.check_session(s, files): return
            o = s.seg(0)
            res.ev((t, hash(text), e)); res.count("fault-" + rule)
            if drive.READ_OK in o: res.bad("fault-accepted-" + rule, "READ accepts '%s' inserted at line %d\n%s" % (t, line, o), files, cmds); continue
            ms = re.findall(r'\?Error on line (\d+) of file "([^"]*)"', o)
            if sn in NOLINE: continue
            if not ms or (int(ms[0][0]), ms[0][1]) != (line, "a.mm"):
                res.bad("line-" + re.sub(r"[^ -~]", "?", sn).replace(" ", "_"), "the fault '%s' (%s) is on line %d but the first error is reported on %s\n%s" % (t, rule, line, ms[:1], o[:1500]), files, cmds)
NOLINE = {"$} ", "$c {l} $.", "$v {l} $.", "$c {v} $.", "$v {c} $."}   # the conflict has two places; the other one may be named

if __name__ == "__main__":
    c = harness.Check("C04", assumptions=["the reference parser in lib/mmref.py decides well-formedness"])
    ctx = {"bin": harness.build("plain")}
    c.run("sources", case, c.n(1500,20000), ctx, "random databases with one or two mutations (token, statement, scope, label, declaration, comment, character); accept/reject, counts, file name compared with the reference parser; every mutated source counts")
    c.run("fault", fault, c.n(800,10000), ctx, "one self-contained faulty snippet (41 kinds) on its own line at a random statement boundary: rejected, first error names that file and line")
    c.finish(min_evals=500)
