"""C21: overwriting a file always keeps the previous version.
history: directory snapshots after every command of random sessions of writing commands, checked against the
         versioning rule for the files the command writes and against equality for all others;
faults:  the last command of a session is killed before or after, or failed at, a file operation chosen by an
         LD_PRELOAD shim; no previous content may be lost and no other file may change;
rights:  the same invariants as an unprivileged user in directories and on files without the needed rights."""
import os, sys, re, random, shutil, subprocess, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness, drive, mmgen, mmref, texgen, deco

HEADER = "<HTML>\n<BODY>\nA page\n"
PAGES = {"bib.html": HEADER + "<!-- #START# -->\n<!-- #END# -->\nThis page was last updated on 1-Jan-2000.\n</BODY>\n",
         "rec.html": HEADER + "<!-- last updated -->\n<!-- #START# -->\n<!-- #END# -->\nThis page was last updated on 1-Jan-2000.\n</BODY>\n"}

def include_db(rng):
    """(files, main, includes, labels): a database, sometimes spread over included files"""
    text, g, _ = mmgen.make_db(rng, None, nth=rng.randint(2, 5), nax=rng.randint(2, 4), comments=True)
    db = mmref.parse(text)
    toks = []
    for t in [t for s in db.stmts[1:] if s.type in "cv" for t in s.math]:
        if t not in toks: toks.append(t)
    thms = [s.label for s in db.stmts[1:] if s.type == "p"]
    if not thms: return None
    for l in thms[:1]: text = text.replace("%s $p" % l, "$( A theorem of [Author] p. 17.  (Contributed by N, 1-Jan-2001.) $)\n%s $p" % l, 1)
    tx, _ = texgen.dollar_t(rng, toks)
    tops = deco.top_level(text)
    files = {}; inc = []
    if len(tops) >= 3 and rng.random() < .6:
        cuts = sorted(rng.sample(tops, rng.choice([1, 2])))
        # pieces become include files
        names = ["i1.mm", "i2.mm"]; parts = []; a = 0
        for k, c in enumerate(cuts):
            files[names[k]] = text[a:c].rstrip() + "\n"; inc.append(names[k]); parts.append("$[ %s $]\n" % names[k]); a = c
        files["main.mm"] = "".join(parts) + text[a:].rstrip() + "\n" + tx
    else: files["main.mm"] = text.rstrip() + "\n" + tx
    return files, inc, thms, [s.label for s in db.asserts()]

class Op:
    """one command, with the files it may write: name -> set of allowed transitions"""
    def __init__(self, cmds, rule, kind, check=None): self.cmds = cmds; self.rule = rule; self.kind = kind; self.check = check

def q(n): return '"%s"' % n

def make_op(rng, st):
    """st: {'inc':..., 'thms':..., 'labels':..., 'names':[plain files]}"""
    k = rng.choice(["tools"] * 4 + ["log", "tex", "source", "source", "source", "split", "split", "extract", "theorems", "bib", "recent", "html", "save", "failed", "nover"])
    W = {"write"}
    if k == "tools":
        n = rng.choice(st["names"]); o = rng.choice(st["names"] + ["new.txt"])
        c, w = rng.choice([("sort %s \"\"" % q(n), n), ("reverse %s" % q(n), n), ("add %s \"a\" \"b\"" % q(n), n), ("number %s 1 5 1" % q(o), o), ("copy %s %s" % (q(n), q(o)), o),
                           ("parallel %s %s %s \"-\"" % (q(n), q(n), q(o)), o), ("clean %s b" % q(n), n), ("unique %s" % q(n), n), ("match %s a y" % q(n), n), ("break %s ' '" % q(n), n), ("build %s" % q(n), n), ("right %s" % q(n), n),
                           ("substitute %s a b 1 ''" % q(n), n), ("insert %s ! 3" % q(n), n), ("tag %s + - '' 1 '' 2" % q(n), n), ("swap %s a" % q(n), n), ("delete %s a b" % q(n), n), ("duplicate %s" % q(n), n), ("unduplicate %s" % q(n), n)])
        return Op(["tools", c, "exit"], {w: W}, k + ":" + c.split()[0])
    if k == "log":
        n = rng.choice(["x.log", "y.log"] + st["names"]); return Op(["open log %s" % q(n), "show settings", "close log"], {n: W}, k)
    if k == "tex":
        n = rng.choice(["x.tex", "y.tex"]); return Op(["open tex %s" % q(n), "show proof %s /tex" % rng.choice(st["thms"]), "close tex"], {n: {"write", "same"}}, k)  # refused after HTML commands
    if k == "source":
        n = rng.choice(["main.mm", "out.mm"]); keep = rng.random() < .4
        r = {n: W}
        if not keep:
            for i in st["inc"]: r[i] = {"removed"}
        return Op(["write source %s%s%s" % (q(n), " /keep_includes" if keep else "", rng.choice(["", " /format", " /rewrap"]))], r, k)
    if k == "split":
        n = rng.choice(["main.mm", "out.mm"])
        r = {n: W}
        for i in st["inc"]: r[i] = {"same", "write", "recovered"}
        return Op(["write source %s /split" % q(n)], r, k)
    if k == "extract":
        n = rng.choice(["main.mm", "out.mm"]); return Op(["write source %s /extract %s" % (q(n), rng.choice(st["thms"]))], {n: W}, k)
    if k == "theorems":
        nv = rng.random() < .2; r = {}
        per = rng.choice([2, 3, 100]); na = len(st["labels"])
        for p in range(0, (na - 1) // per + 2): r["mmtheorems%s.html" % (p or "")] = {"nover"} if nv else W
        return Op(["write theorem_list /theorems_per_page %d%s%s" % (per, rng.choice(["", " /html", " /alt_html"]), " /no_versioning" if nv else "")], r, k)
    if k == "bib": return Op(["write bibliography bib.html"], {"bib.html": W}, k)
    if k == "recent": return Op(["write recent_additions rec.html%s" % rng.choice(["", " /limit 1", " /alt_html"])], {"rec.html": W}, k)
    if k == "html":
        nv = rng.random() < .3; ls = rng.sample(st["labels"], min(len(st["labels"]), rng.choice([1, 1, 2]))); r = {}
        cm = []
        for l in ls: r[l + ".html"] = {"nover"} if nv else W; cm.append("show statement %s %s%s" % (l, rng.choice(["/html", "/alt_html"]), " /no_versioning" if nv else ""))
        return Op(cm, r, k)
    if k == "save": return Op(["save proof %s %s" % (rng.choice(st["thms"]), rng.choice(["/normal", "/compressed", "/packed"]))], {}, k)
    if k == "nover":
        n = rng.choice(["main.mm", "out.mm"]); r = {n: {"nover"}}
        for i in st["inc"]: r[i] = {"nover-removed"}
        return Op(["write source %s /no_versioning" % q(n)], r, k)
    if k == "failed":
        return rng.choice([Op(["write source main.mm /bogus"], {}, k), Op(["tools", "sort nosuch.txt ''", "copy a.txt,nosuch b.txt", "parallel a.txt nosuch b.txt ''", "exit"], {}, k),
                           Op(["write bibliography nosuch.html"], {}, k), Op(["write recent_additions nosuch.html"], {}, k), Op(["show statement nosuch /html"], {}, k),
                           Op(["wrte source main.mm", "write source main.mm /spli /keep_includess", "open logg x.log"], {}, k), Op(["write source main.mm /extract nosuch /keep_includes", "write source main.mm /extract nosuch /rewrap"], {}, k),
                           Op(["open log \"nodir/x.log\"", "write source \"nodir/main.mm\" /keep_includes", "open tex \"nodir/x.tex\""], {}, k)])

def snap(d):
    r = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as h: r[os.path.relpath(p, d)] = h.read()
    return r

def base(n):
    m = re.fullmatch(r"(.*)~([1-9])", n)
    return (m.group(1), int(m.group(2))) if m else (n, 0)
def versions(files, n): return [files.get(n)] + [files.get("%s~%d" % (n, i)) for i in range(1, 10)]
def shifted(v):
    """the version list after the main file was moved to ~1"""
    last = 1
    while last < 10 and v[last] is not None: last += 1
    # versions 1..last-1 move up by one; version 9 is lost
    return [None, v[0]] + v[1:last][:8] + v[last + 1:] if last < 10 else [None, v[0]] + v[1:9]

def transition(before, after):
    """names of the transitions that explain the change of one file's versions"""
    out = set()
    if before == after: out.add("same")
    if after[0] is not None and after[1:] == (before if before[0] is None else shifted(before))[1:]: out.add("write")
    if after[0] is not None and before[0] != after[0] and "write" in out: out.add("write-different")
    if before[0] is not None and after == shifted(before) or before[0] is None and after == before: out.add("removed")
    if before[0] is None and before[1] is not None and after == [before[1], None] + before[2:]: out.add("recovered")
    if after[0] is not None and after[1:] == before[1:]: out.add("nover")
    if after[0] is None and after[1:] == before[1:]: out.add("nover-removed")
    return out

def judge(viol, res, op, before, after):
    names = set(base(n)[0] for n in list(before) + list(after))
    for n in sorted(names):
        b = versions(before, n); a = versions(after, n)
        want = op.rule.get(n, {"same"}); got = transition(b, a)
        res.count("trans:" + (sorted(want & got) or ["?"])[0]) if n in op.rule else None
        if b[0] is not None and n in op.rule and a != b: res.count("overwritten")
        if not want & got:
            dif = [("identical" if x == y else "differ at %d of %d/%d" % (([i for i in range(min(len(x), len(y))) if x[i] != y[i]] + [min(len(x), len(y))])[0], len(x), len(y))) for x, y in zip(a, a[1:]) if x is not None and y is not None]
            viol("version:" + "/".join(sorted(want)), "file %s: the command %s should have the effect %s, but the versions (main, ~1..~9) went from\n%s\nto\n%s\nneighbours: %s" % (n, op.cmds, sorted(want), [x and x[:60] for x in b], [x and x[:60] for x in a], dif))

def setup(rng):
    while True:
        x = include_db(rng)
        if x: break
    files, inc, thms, labels = x
    f = {k: v.encode("latin-1") for k, v in files.items()}
    f.update({k: v.encode() for k, v in PAGES.items()})
    names = ["a.txt", "b.txt", "c"]
    for n in names: f[n] = ("".join("%s a b %d\n" % (n, rng.randint(0, 99)) for _ in range(rng.randint(1, 4)))).encode()
    # older versions, sometimes with gaps
    cand = names + list(files) + list(PAGES) + ["out.mm", "x.log", "x.tex", "mmtheorems.html", "mmtheorems1.html", labels[0] + ".html"]
    for n in rng.sample(cand, rng.randint(1, len(cand))):
        if n not in f and rng.random() < .7: f[n] = ("old %s %d" % (n, rng.randint(0, 9999))).encode()
        if n not in f and n in inc: continue
        top = rng.choice([0, 1, 2, 5, 8, 9, 9])
        for i in range(1, top + 1):
            if rng.random() < .93: f["%s~%d" % (n, i)] = ("%s version %d (%d)" % (n, i, rng.randint(0, 9999))).encode()
    return f, {"inc": inc, "thms": thms, "labels": labels, "names": names}

def history(res, rng, ctx):
    f, st = setup(rng); ops = [make_op(rng, st) for _ in range(rng.choice([1, 3, 6, 10]))]
    cmds = ["read main.mm"]; marks = []
    for i, o in enumerate(ops): cmds += o.cmds; cmds.append("\"cp -r . ../s%d\"" % i); marks.append(i)
    with drive.Scratch() as sc:
        for n, d in f.items(): sc.write("w/" + n, d)
        s = drive.run(ctx["bin"], cmds, sc.path("w"), end=("exit", "y", "exit"), env=ctx.get("env"))
        snaps = [f] + [snap(sc.path("s%d" % i)) for i in marks] + [snap(sc.path("w"))]
    files = dict(f)
    if not res.check_session(s, files): return
    if drive.READ_OK not in s.seg(0): res.unsure("read: " + s.seg(0)[:300]); return
    def viol(k, d): res.bad(k, d, files, s.cmds)
    for i, o in enumerate(ops):
        if not snaps[i + 1]: res.unsure("no snapshot after %s" % o.cmds); return
        res.ev((o.kind, sorted((n, len(d)) for n, d in snaps[i].items()))); res.count(o.kind)
        judge(viol, res, o, snaps[i], snaps[i + 1])
    if snaps[-1] != snaps[-2]: viol("exit-writes", "files changed at exit")
    if res.sample is None: res.sample = {"commands": cmds}

def lost(viol, res, op, before, after, crashed):
    """after a fault: every main file is still there under its name or a backup name, older versions below 9 too, other files unchanged"""
    for n in sorted(set(base(x)[0] for x in before)):
        b = versions(before, n); a = versions(after, n)
        if n not in op.rule:
            if a != b: viol("fault-other-file", "file %s, which %s does not write, changed from\n%s\nto\n%s" % (n, op.cmds, [x and x[:60] for x in b], [x and x[:60] for x in a]))
            continue
        if op.rule[n] <= {"nover", "nover-removed"}: continue
        for i, v in enumerate(b[:9]):
            if v is not None and v not in a:
                viol("fault-lost" if i == 0 else "fault-lost-older", "the content of %s%s is gone after %s was %s: the versions (main, ~1..~9) went from\n%s\nto\n%s" % (n, "~%d" % i if i else "", op.cmds, crashed, [x and x[:60] for x in b], [x and x[:60] for x in a]))
        res.count("fault-file-checked")
    for n in after:
        if base(n)[0] not in op.rule and n not in before and not re.fullmatch(r"zz~.*", n):
            viol("fault-stray", "the stray file %s appeared after %s" % (n, op.cmds))

def faults(res, rng, ctx):
    f, st = setup(rng)
    while True:
        op = make_op(rng, st)
        if op.rule and op.kind != "nover": break
    if rng.random() < .7:
        for n in op.rule:
            if n not in f: f[n] = b"an earlier version of " + n.encode()
    pre = ["save proof %s /normal" % st["thms"][0], "y"] if rng.random() < .3 else []
    cmds = ["read main.mm"] + ["save proof %s %s" % (rng.choice(st["thms"]), rng.choice(["/normal", "/compressed"]))] * (rng.random() < .5) + op.cmds
    with drive.Scratch() as sc:
        for n, d in f.items(): sc.write("w/" + n, d)
        env = dict(ctx.get("env") or {}); env["LD_PRELOAD"] = ctx["shim"]; env["FSHIM_LOG"] = sc.path("log")
        shutil.copytree(sc.path("w"), sc.path("dry"))
        s = drive.run(ctx["bin"], cmds, sc.path("dry"), end=("exit", "y"), env=env)
        if s.timeout or drive.READ_OK not in (s.seg(0) or ""): res.unsure("dry run"); return
        ops = open(sc.path("log")).read().split("\n")[:-1]
        del env["FSHIM_LOG"]
        w = [int(l.split()[0]) for l in ops if re.search(r" (rename|remove|unlink|fopen-w) ", l)]
        allops = [int(l.split()[0]) for l in ops]
        pts = set(rng.sample(w, min(len(w), 5))) | set(rng.sample(allops, min(len(allops), 3)))
        for k in sorted(pts):
            mode = rng.choice(["before", "after", "fail"]); 
            env["FSHIM_AT"] = str(k); env["FSHIM_MODE"] = mode; env["FSHIM_ERRNO"] = rng.choice(["5", "13", "28", "24"])
            shutil.rmtree(sc.path("x"), ignore_errors=True); shutil.copytree(sc.path("w"), sc.path("x"))
            s = drive.run(ctx["bin"], cmds, sc.path("x"), end=("exit", "y"), env=env)
            after = snap(sc.path("x"))
            what = ops[k - 1].split()[1]
            if s.timeout: res.unsure("timeout"); continue
            res.count("%s %s" % (mode, what)); res.ev((op.kind, mode, what, k)); res.count("killed" if s.rc == 137 else "survived")
            files = dict(f)
            def viol(kk, d): res.bad(kk, "%s\noperation %s, %s, errno %s" % (d, ops[k - 1], mode, env["FSHIM_ERRNO"]), files, s.cmds)
            lost(viol, res, op, f, after, "killed (%s)" % mode if mode != "fail" else "hit by a failing operation")
    if res.sample is None: res.sample = {"commands": cmds, "operations": len(ops)}

def rights(res, rng, ctx):
    """as an unprivileged user: directories that cannot be changed, files that cannot be read or written"""
    f, st = setup(rng)
    while True:
        op = make_op(rng, st)
        if op.rule and op.kind not in ("nover", "theorems", "html"): break
    for n in op.rule:
        if n not in f and rng.random() < .8: f[n] = b"an earlier version of " + n.encode()
    cmds = ["read main.mm"] + ["save proof %s %s" % (rng.choice(st["thms"]), rng.choice(["/normal", "/compressed"]))] * (rng.random() < .5) + op.cmds
    with drive.Scratch() as sc:
        os.chmod(sc.d, 0o755)
        for n, d in f.items(): sc.write("w/" + n, d)
        # only files this command does not have to read lose the read permission
        ro = []
        for n in sorted(f):
            b = base(n)[0]
            os.chown(sc.path("w/" + n), 65534, 65534)
            m = 0o644
            if b in op.rule and (base(n)[1] or (op.kind in ("log", "tex", "source") and n != "main.mm" and n not in st["inc"]) or op.kind.startswith("tools:number")) and rng.random() < .5: m = rng.choice([0o200, 0, 0o444]); ro.append(n)
            os.chmod(sc.path("w/" + n), m)
        dm = 0o755 if ro and rng.random() < .6 else 0o555
        os.chown(sc.path("w"), 65534, 65534); os.chmod(sc.path("w"), dm)
        s = drive.run("/usr/bin/setpriv", cmds, sc.path("w"), args=["--reuid=65534", "--regid=65534", "--clear-groups", ctx["bin"]], end=("exit", "y"), env=ctx.get("env"))
        after = snap(sc.path("w"))
    if s.timeout: res.unsure("timeout"); return
    files = dict(f)
    if drive.READ_OK not in (s.seg(0) or ""): res.unsure("read failed as an unprivileged user: " + s.out[:300]); return
    def viol(k, d): res.bad("rights-" + k, "%s\ndirectory mode %o, files without rights %s" % (d, dm, ro), files, s.cmds)
    res.ev(("rights", op.kind, dm, ro)); res.count("rights dir %o" % dm); res.count("rights files", len(ro))
    lost(viol, res, op, f, after, "run without rights")

def build_shim():
    src = os.path.join(harness.VERIF, "native", "faultshim.c")
    root = os.path.join(harness.VERIF, "build") if harness.REPO == "/repo" else os.path.join(harness.REPO, "vbuild")
    os.makedirs(root, exist_ok=True); out = os.path.join(root, "fshim.%d.so" % os.getpid()); dst = os.path.join(root, "fshim.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", out, src, "-ldl"], check=True); os.rename(out, dst); return dst

if __name__ == "__main__":
    c = harness.Check("C21", assumptions=["the process is killed between file operations, not inside one system call (rename is atomic)", "GNU/Linux file naming"])
    ctx = {"bin": harness.build("plain"), "shim": build_shim()}
    c.run("history", history, c.n(1600, 40000), ctx, "random sessions of writing commands over directories with existing versions and gaps; snapshot after every command; each file's versions must follow the rule of that command, all others stay byte for byte")
    c.run("faults", faults, c.n(500, 15000), ctx, "one writing command, killed before/after or failed at up to 8 of its file operations (every rename, remove, open for writing is a candidate); no content up to ~8 is lost, no other file changes")
    # as user nobody the binary must be reachable
    import tempfile
    d = tempfile.mkdtemp(prefix="mmv-bin-"); os.chmod(d, 0o755); shutil.copy(ctx["bin"], d + "/metamath"); os.chmod(d + "/metamath", 0o755)
    try: c.run("rights", rights, c.n(700, 8000), {"bin": d + "/metamath"}, "one writing command as an unprivileged user with missing directory or file permissions; no content is lost")
    finally: shutil.rmtree(d, ignore_errors=True)
    c.finish(min_evals=1000)
