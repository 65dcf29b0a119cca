"""C23: ERASE leaves no trace of the previous database.
One session reads, uses, edits and erases one or more databases (valid, faulty, typeset, with proofs in progress) and
then works on a last one; a fresh session does only the last part.  Every command of the last part must print the same
and every file it writes must be the same, dates and times apart."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, drive, cmdgen, scopegen, mutate, mmgen, texgen
import c22

def normal(t):
    for a, b in c22.VARY: t = a.sub(b, t)
    return t

def broken(rng, text):
    """a damaged copy of a database"""
    toks = re.split(r"(\s+)", text); k = rng.randint(1, 3)
    for _ in range(k):
        i = rng.randrange(len(toks)); m = rng.random()
        if m < .4: toks[i] = ""
        elif m < .7: toks[i] = rng.choice(["$.", "$=", "${", "$}", "$(", "$)", "$a", "$p", "$d", "$[", "zz", "$v", "$c", "$f"])
        else: toks[i] += " " + toks[rng.randrange(len(toks))]
    return "".join(toks)

def using(rng, c, n):
    """commands that work on the current database"""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .3: out.append(c.show().text())
        elif k < .55: out.append(c.write().text())
        elif k < .65: out.append(c.wrong())
        elif k < .8:
            x = c.pa()
            if rng.random() < .5: x.insert(-1, rng.choice(["save new_proof /compressed /override", "save new_proof /normal /override", "write source p.mm /format"]))
            out += x
        elif k < .9: out.append("save proof %s /%s" % (c.pattern("thms"), rng.choice(["normal", "compressed", "packed", "explicit"])))
        elif k < .94: out += ["open tex x%d.tex" % rng.randint(0, 9), "show statement %s /tex" % c.label(), "show proof %s /tex" % c.label("thms"), "close tex"]
        elif k < .97: out += c.tools()
        else: out.append(rng.choice(["show memory", "show settings", "markup mm.txt out.html /html /symbols", "verify proof *", "verify markup *", "show discouraged", "write theorem_list", "show statement * /html"]))
    return out

def harmless(rng, c):
    """commands for a database with reported errors, after which internal errors are to be expected"""
    return [rng.choice(["show labels *", "show source %s" % c.label(), "verify proof *", "show statement %s /full" % c.label(), "search * \"->\"", "write source q.mm", "show memory", "show statement %s /html" % c.label(), "show proof %s" % c.label("thms")]) for _ in range(rng.choice([0, 1, 3]))]

def twin(res, rng, ctx):
    files = dict(cmdgen.PAGES); files.update({"a.txt": "b a\nq a z\n", "b.txt": "x\n", "other.mm": "$c a $.\n", "mm.txt": "a ` x ` ~ y <HTML> [Author]\n"})
    pre = []
    def db():
        k = rng.random(); tex = rng.random() < .8
        d = cmdgen.rich_db(rng, tex=tex, complete=rng.random() < .8, **({"allow_empty": True} if False else {}))
        return d
    nd = rng.choice([1, 1, 1, 2, 3]); last = db(); faulty = False
    for i in range(nd):
        d = db() if rng.random() < .8 else last
        t = d["text"]; bad = rng.random() < .25
        if bad: t = broken(rng, t); faulty = True
        if rng.random() < .1: t = scopegen.make(rng, comments=True)
        n = "d%d.mm" % i; files[n] = t
        if rng.random() < .3: pre.append("set empty_substitution %s" % "off") if False else None
        pre.append("read %s%s" % (n, " /verify" if rng.random() < .2 else "")); pre += (using(rng, cmdgen.Commands(rng, d), rng.choice([0, 2, 6, 12])) if not bad else harmless(rng, cmdgen.Commands(rng, d)))
        if rng.random() < .3: pre += ["read main.mm"]          # refused
        pre += ["erase", "y"]
        if rng.random() < .2: pre += ["erase", "show labels *", "verify proof *"]
    t = last["text"]
    if rng.random() < .1: t = broken(rng, t); faulty = True
    files["main.mm"] = t
    # the last part
    c = cmdgen.Commands(rng, last)
    tail = ["read main.mm", "show statement %s %s /no_versioning" % (last["thms"][0], rng.choice(["/html", "/alt_html"]))]   # sets the output mode, which outlives ERASE
    for _ in range(rng.choice([3, 8, 15])):
        k = rng.random()
        if k < .5: tail.append(c.show().text())
        elif k < .75:
            x = c.write().text()
            if "no_versioning" not in x and x.startswith("show statement"): x += " /no_versioning"
            tail.append(x.replace("bib.html", "bib2.html").replace("rec.html", "rec2.html"))
        elif k < .8: tail.append(c.wrong())
        elif k < .88: tail += c.pa()
        elif k < .92: tail.append("save proof %s /%s" % (c.pattern("thms"), rng.choice(["normal", "compressed", "packed", "explicit"])))
        elif k < .95: tail += ["open tex x.tex", "show statement %s /tex" % c.label(), "show proof %s /tex" % c.label("thms"), "close tex"]
        else: tail.append(rng.choice(["show settings", "verify markup *", "show discouraged", "show statement * /full", "verify proof *", "show statement * /alt_html /no_versioning"]))
    tail = [x if not re.match(r"(write source (o|e)\d)", x) else x.replace("write source ", "write source z") for x in tail]
    for a in ("bib", "rec"): files[a + "2.html"] = files[a + ".html"]
    out = []
    for k in (0, 1):
        with drive.Scratch() as sc:
            for n, t in files.items(): sc.write(n, t)
            p = ["\"echo begin\""] if k else pre + ["\"echo begin\""]
            s = drive.run(ctx["bin"], p + tail, sc.d, end=("exit", "y", "exit /force"), env=ctx.get("env"), timeout=30)
            if faulty and (s.bugcheck or s.rc != 0 or s.san()): res.count("internal error in a database with reported errors (left to C27)"); return
            if not res.check_session(s, files): return
            mark = [i for i, (q, o) in enumerate(s.segs) if re.match(r"begin\n", o)]
            if len(mark) != 1: res.unsure("marker %s" % mark); return
            segs = s.segs[mark[0] + 1:]
            names = [n for n in sc.ls() if "~" not in n and n not in files or n in ("bib2.html", "rec2.html")]
            out.append((segs, {n: sc.read(n) for n in names}, s))
    (a, fa, s1), (b, fb, s2) = out
    def bad(k, t): res.bad(k, t, files, s1.cmds)
    res.count("databases", nd); res.count("commands before", len(pre))
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else ("(none)", ""); y = b[i] if i < len(b) else ("(none)", "")
        res.ev((hash(y), i)); res.count("compared")
        if x[0] != y[0] or normal(x[1]) != normal(y[1]):
            u, v = normal(x[1]), normal(y[1]); j = next((q for q in range(min(len(u), len(v))) if u[q] != v[q]), min(len(u), len(v)))
            w = tail[i] if i < len(tail) else "?"
            bad("differs:" + " ".join(w.split()[:2]), "after ERASE the command %r prints\n%s ...%s\nbut in a fresh session\n%s ...%s" % (w, x[0], u[max(0, j - 200):j + 300], y[0], v[max(0, j - 200):j + 300])); return
    for n in sorted(fb):
        u, v = c22.undate(c22.PAGE.sub("", fa.get(n) or "")), c22.undate(c22.PAGE.sub("", fb[n] or "")); res.ev((n, hash(v))); res.count("files compared")
        if u != v:
            j = next((q for q in range(min(len(u), len(v))) if u[q] != v[q]), min(len(u), len(v)))
            bad("file-differs", "after ERASE %s is written as\n...%s\nbut in a fresh session as\n...%s" % (n, u[max(0, j - 200):j + 300], v[max(0, j - 200):j + 300])); return
    if res.sample is None: res.sample = {"before": pre[:10], "after": tail[:10]}

if __name__ == "__main__":
    c = harness.Check("C23", assumptions=["dates, times and run times are left out of the comparison", "settings made with SET are the user's and survive ERASE; none is made before ERASE here"])
    ctx = {"bin": harness.build("plain")}
    c.run("twin", twin, c.n(2500, 50000), ctx, "sessions that read, use and erase 1 to 3 random databases (some faulty) before the last one, against a fresh session with only the last one; all output and files compared")
    c.run("san", twin, c.n(120, 3000), {"bin": harness.build("asan")}, "the same under ASan and UBSan")
    c.finish(min_evals=2000)
