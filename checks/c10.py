#!/usr/bin/env python3
"""C10: WRITE SOURCE /FORMAT and /REWRAP change layout only."""
from verify_common import *
import random, scopegen, c02, c05, c09

W = "alpha of the Beta theorem holds when. Proved by closed law, see also (for example) the case: \"every\" one ends 'here'! Is it? A. B. Church p. 25 [Quine] (Contributed by NM, 5-Aug-1993.) x e.g. i.e. 10 set.mm a1i -- --- ; , : foo.) bar.\" ( spaced ) [ br ] . , http://us.metamath.org/a/b#c _emph_ ^^ <B> &amp; $ 5 x_1".split()

def par(rng, labels):
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, 12, 30, 60])):
        k = rng.random()
        if k < .06: out.append("` %s `" % " ".join(rng.choice(["ph", "->", "(", ")", "A", "~", "x", "[", "|-"]) for _ in range(rng.choice([1, 2, 4, 9, 25]))))
        elif k < .1: out.append("~ " + rng.choice(labels))
        elif k < .11: out.append("~ http://us.metamath.org/%s.html" % ("w" * rng.choice([3, 40, 90])))
        elif k < .13: out.append(rng.choice(["`` x", "a~~b", "` ph `_2", "(` ph `)", "` A `,", "~"]))
        elif k < .14: out.append(rng.choice(["(New usage is discouraged.)", "(Proof modification is discouraged.)"]))
        elif k < .15: out.append("w" * rng.choice([30, 70, 78, 79, 80, 90, 200]))
        else: out.append(rng.choice(W))
    return out

def comment(rng, labels, kind="desc"):
    if kind == "head":
        d = rng.choice(["####", "#*#*", "=-=-", "-.-."]) * 19
        return "$(\n%s\n  %s\n%s\n$)" % (d[:rng.choice([75, 79])], " ".join(par(rng, labels)[:8]).replace("\n", " ") or "Title", d)
    P = [par(rng, labels) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    sep = lambda: rng.choice([" ", " ", " ", " ", "  ", "\n", "\n     ", "\n  "])
    s = rng.choice(["\n\n", "\n\n     ", "\n \n", "\n\n\n"]).join("".join(w + sep() for w in p).rstrip() for p in P)
    if rng.random() < .06: s = "<HTML> " + s + " </HTML>"
    if rng.random() < .2: s = "`" + s if 0 else s
    return "$(" + rng.choice([" ", " ", " ", " ", "\n", "  ", "\n     ", "\n\n"]) + s + rng.choice([" ", " ", " ", "  ", "\n", "\n\n", "\n   "]) + "$)"

def build(rng, text):
    """put comments and white space of many kinds where people put them"""
    toks = c05.tokens(text); out = []; pos = 0
    labels = [t[0] for t in toks if re.match(r"[A-Za-z][\w.-]*$", t[0])][:30] or ["x"]
    kws = {"$a", "$p", "$e", "$f", "$c", "$v", "$d", "${", "$}"}
    strict = rng.random() < .5
    prev = "$."; 
    for i, (t, a, b, c) in enumerate(toks):
        out.append(text[pos:a]); pos = b
        if not c and prev in ("$.", "${", "$}") and rng.random() < .5:
            k = rng.random()
            if k < .2: out.append(rng.choice(["\n\n\n\n", "   \n", "\t", " \n \n", "\n", "", "\n\n"]))
            elif k < .6:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    out.append(rng.choice(["\n  ", "\n", "\n\n", " ", "\n\t", "\n     "]) + comment(rng, labels, "head" if rng.random() < .12 else "desc"))
                out.append(rng.choice(["\n", "\n  ", "\n\n", " ", "\n  "]))
            elif k < .7: out.append(rng.choice(["\n", " "]) + rng.choice(["$( $j x 'y'; $)", "$( a $) $( b $)", "$(\n$)", "$( $)"]) + rng.choice(["\n", " "]))
        elif not c and not strict and rng.random() < .05: out.append(rng.choice([" $( in $)", "\n", "\t", "  ", " $(\n mid\n$) ", "\n\n", " \n"]) + " ")
        out.append(t)
        if not c: prev = t
    text = "".join(out) + text[pos:]
    if rng.random() < .1: text = text.replace("\n", "\r\n")
    if rng.random() < .2: text = rng.choice(["$( first line $)\n", "\n", " ", "$( a $) $( b $)"]) + text
    return text

def neat_build(rng):
    """a source laid out as in set.mm: one statement per line, a description of plain words before each assertion"""
    t, g, pr = mmgen.make_db(rng, None, comments=False, desc=False, nth=rng.randint(1, 6))
    out = ""; 
    pos = 0
    db = mmref.parse(t); labels = [x.label for x in db.asserts()]
    lvl = 0; last = None
    for x in db.stmts[1:]:
        if x.type == "}": lvl -= 1
        ind = "  " * (1 + lvl)
        body = ("$" + x.type if x.type in "{}" else "$" + x.type + " " + " ".join(x.math) + (" $.\n" if x.type != "p" else ""))
        if x.type in "ap":
            ps = [[w for w in par(rng, labels) if len(w) < 35 and w not in "-- --- ; , : ( ) [ ] . ~ a~~b".split() and "`" not in w or (re.match("` .* `$", w) and len(w) < 35)] for _ in range(rng.choice([1, 1, 2]))]
            ps = [[w.replace("~ ", "") for w in p[:1]] + p[1:] for p in ps if p] or [["Text."]]
            out += ind + "$( " + ("\n\n" + ind + "   ").join(rng.choice([" ", "\n" + ind + "   "]).join(p) for p in ps) + " $)\n"
        if x.type == "p":
            out += ind + x.label + " $p " + " ".join(x.math) + " $=\n" + ind + "  " + ("\n" + ind + "  ").join(" ".join(x.proof[i:i + 9]) for i in range(0, len(x.proof), 9)) + " $.\n"
        else: out += ind + (x.label + " " if x.label else "") + body.rstrip("\n") + "\n"
        if x.type in "ap" or x.type == "}": out += "\n"
        if x.type == "{": lvl += 1
    return out

DUMMY = "$( PLEASE PUT DESCRIPTION HERE. $)"

def items(text):
    """tokens and comments in order"""
    out = []; cur = None
    for t, a, b, c in c05.tokens(text):
        if not c: out.append(("t", t)); continue
        if t == "$(" and cur is None: cur = a; continue
        if t == "$)": out.append(("c", text[cur + 2:a])); cur = None
    return out

def cmp_items(a, b, rewrap):
    """None if b is a with another layout, otherwise a description"""
    i = 0
    for k, v in b:
        if i < len(a) and a[i][0] == k:
            w = a[i][1]
            if k == "t":
                if v == w: i += 1; continue
            else:
                x, y = w.split(), v.split()
                if x == y: i += 1; continue
                if rewrap:
                    x, y = "".join(x), "".join(y)
                    if x == y or (x and x[-1].islower() and x + "." == y): i += 1; continue
        if k == "c" and v.split() == "PLEASE PUT DESCRIPTION HERE.".split(): continue
        return "item %d: expected %r, found %r" % (i, a[i] if i < len(a) else None, (k, v))
    if i < len(a): return "lost from item %d: %r" % (i, a[i])
    return None

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        k = rng.random()
        if k < .4: text = scopegen.make(rng, comments=rng.random() < .5, bad=False)
        else: text = mmgen.make_db(rng, None, comments=rng.random() < .3, desc=rng.random() < .5, nth=rng.randint(1, 6), contrib=rng.random() < .3)[0]
        neat = rng.random() < .4
        text = neat_build(rng) if neat else build(rng, text)
        try: db = mmref.parse(text)
        except mmref.MMError: res.count("skipped"); return
        q = rng.choice(["/format", "/rewrap", "/rewrap"]); w = rng.choice([79, 79, 79, 60, 40, 100])
        sc.write("a.mm", text)
        cmds = ["read a.mm", "verify proof *", "set width %d" % w, "write source b.mm " + q, "set width 9999", "verify proof *", "write source c.mm", "erase",
                "read b.mm", "verify proof *", "set width %d" % w, "write source d.mm " + q, "write source e.mm " + q]
        s = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        def bad(k, d): res.bad(k + q, d, files, cmds)
        if drive.READ_OK not in s.seg(0): return bad("read", "rejected\n" + s.seg(0))
        b = sc.read("b.mm"); src = c09.norm_src(text)
        if b is None: return bad("no-output", s.seg(3))
        res.ev((q, w, hash(src))); res.count(q); res.count("bytes", len(src)); res.count("changed" if b != src else "same")
        try: db2 = mmref.parse(b)
        except mmref.MMError as e: bad("broken", "the output is not well formed: %s" % e); db2 = None
        d = cmp_items(items(src), items(b), q == "/rewrap")
        if d: return bad("content", d)
        res.count("comments", sum(1 for x in items(src) if x[0] == "c"))
        if drive.READ_OK not in (s.seg(8) or ""): return bad("reread", s.seg(8) or "")
        v = lambda o: (sorted(set(error_labels(o))), sorted(unproved(o)))
        if not v(s.seg(1)) == v(s.seg(5)) == v(s.seg(9)): bad("verdict", "%s %s %s" % (v(s.seg(1)), v(s.seg(5)), v(s.seg(9))))
        if sc.read("c.mm") != b: bad("later-write", "WRITE SOURCE after %s gives something else %s" % (q, c09.first_diff(sc.read("c.mm") or "", b)))
        o = sc.read("d.mm")
        for f in ("d.mm", "e.mm"):
            d = cmp_items(items(b), items(sc.read(f) or ""), q == "/rewrap")
            if d: bad("content-again", "%s applied to its own output: %s" % (q, d))
        if neat and w >= 60:
            res.count("idempotence")
            if o != b: bad("not-idempotent", "formatting the output again changes it %s" % c09.first_diff(o or "", b))
        if q == "/rewrap" and neat and w >= 60:
            # every line of a rewrapped comment keeps to the width, and two lines of a paragraph would not fit on one
            for m in re.finditer(r"(?s)\n( *)(\$\( (?:(?!\$\)).)*\$\))", b):
                L = (m.group(1) + m.group(2)).split("\n"); res.count("rewrapped")
                for i, l in enumerate(L):
                    if len(l) > w: bad("too-long", "line of %d characters at width %d: %r" % (len(l), w, l)); break
                    if i + 1 < len(L) and l.strip() and L[i + 1].strip():
                        first = re.match(r"\s*(?:~ \S+|\S+)", L[i + 1]).group(0).strip()
                        if "`" not in L[i + 1] and "(" not in first and first != "p." and len(l) + 2 + len(first) + 14 <= w and not L[i + 1].lstrip().startswith(("(New", "(Proof")): bad("too-short", "line %r could take %r at width %d" % (l, first, w)); break
        if res.sample is None: res.sample = {"q": q, "width": w, "output": b[:600]}

if __name__ == "__main__":
    c = harness.Check("C10")
    ctx = {"bin": harness.build("plain")}
    c.run("format", case, c.n(4000, 60000), ctx, "random databases with comments and white space of every kind; output of /FORMAT and /REWRAP at several widths: token and comment sequence, verdicts, re-reading, idempotence")
    c.finish(min_evals=1000)
