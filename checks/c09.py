#!/usr/bin/env python3
"""C09: WRITE SOURCE reproduces an unmodified database exactly."""
from verify_common import *
import random, scopegen, c02, c05, c08

LOOK = ["show labels *", "show statement * /full", "verify proof *", "show source %s", "search * \"$* |- $*\"", "show proof %s /all", "show trace_back %s", "show statement * /comment", "show discouraged", "show usage %s /recursive",
        "verify markup * /top_date_skip /file_skip", "show proof %s /compressed", "show elapsed_time", "show memory", "help write source", "nonsense", "show statement zz*", "show proof %s /normal", "set width 60", "set width 9999", "show settings", "show proof %s /statement_summary"]

def norm_src(t):
    t = t.replace("\r\n", "\n").replace("\r", "\n")
    if t and not t.endswith("\n"): t += "\n"
    return t

def decorate(rng, text):
    """white space and comments of every kind between statements and tokens; may end anyhow"""
    k = rng.random()
    if k < .25: text = c02.relayout(rng, text)
    elif k < .8:
        toks = c05.tokens(text); out = []; pos = 0
        for t, a, b, c in toks:
            out.append(text[pos:b]); pos = b
            if not c and rng.random() < .08:
                out.append(rng.choice([" $( x $)", "\t", "\n\n\n\n", " \f\n", " $( $[ x.mm $] ` a ~ b \n\n _c_ $)", "   ", "\n$(\n#*#*#\n  Part\n#*#*#\n$)\n", " $( a\tb $)", " $( " + "long " * 40 + "$)", "  $()  $)" if 0 else " $( $)", "\v" if 0 else "\n \n", " $( <HTML> &lt; $)", " $( $t junk $)" if 0 else " $( %s $)" % ("w" * 300)]))
        out.append(text[pos:]); text = "".join(out)
    k = rng.random()
    if k < .2: text = text.replace("\n", "\r\n")
    k = rng.random()
    if k < .3: text = text.rstrip("\n")
    elif k < .5: text += rng.choice(["\n\n\n", "  ", "\t\n", " $( end $)", "\n$( end\n$)\n\n"])
    if rng.random() < .3: text = rng.choice(["\n\n", " ", "$( first $)\n", "$( first $) $( second\n\n $)", "\t"]) + text
    return text

def first_diff(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "at byte %d: ...%r... versus ...%r..." % (i, a[max(0, i - 80):i + 80], b[max(0, i - 80):i + 80])

def rnd_db(rng):
    k = rng.random()
    if k < .15: return c02.big_db(rng)[0]
    if k < .5: return scopegen.make(rng, bad=False)
    return mmgen.make_db(rng, None, comments=rng.random() < .5, nth=rng.randint(1, 6), contrib=rng.random() < .3)[0]

def single(res, rng, ctx):
    with drive.Scratch() as sc:
        text = decorate(rng, rnd_db(rng))
        try: db = mmref.parse(text)
        except mmref.MMError: res.count("skipped"); return
        P = [s.label for s in db.asserts()] or ["x"]
        sc.write("a.mm", text)
        cmds = ["read a.mm"]
        for _ in range(rng.randint(0, 4)):
            c = rng.choice(LOOK); cmds.append(c % rng.choice(P) if "%" in c else c)
        w = []
        for i in range(rng.randint(1, 3)):
            q = rng.choice(["", "", "/keep_includes", "/split", "/no_versioning", "/no_versioning/keep_includes"])
            w.append((len(cmds), "o%d.mm" % i)); cmds.append("write source o%d.mm %s" % (i, q))
            if rng.random() < .3: cmds.append(rng.choice(LOOK[:3]))
        cmds += ["erase", "read o0.mm", "write source p.mm", "write source o0.mm /no_versioning"]
        s = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        want = norm_src(text)
        def bad(k, d): res.bad(k, d, files, cmds)
        if drive.READ_OK not in s.seg(0): return bad("read", "rejected\n" + s.seg(0))
        for i, f in w + [(len(cmds) - 2, "p.mm"), (len(cmds) - 1, "o0.mm")]:
            o = sc.read(f); res.ev((hash(want), f))
            if o is None: bad("missing", "%s wrote no %s\n%s" % (cmds[i], f, s.seg(i))); continue
            if o != want: bad("bytes", "%s: the output differs %s" % (cmds[i], first_diff(o, want)))
            m = re.search(r"(\d+) source statement\(s\) were written", s.seg(i) or "")
            if not m or int(m.group(1)) != len(db.stmts) - 1: bad("count", "%s: %s (database has %d statements)" % (cmds[i], s.seg(i), len(db.stmts) - 1))
        if set(sc.ls()) != set(["a.mm", "p.mm"] + [f for i, f in w]): bad("other-files", "files now: %s" % sc.ls())
        if sc.read("a.mm") != text: bad("input-changed", "the input file was changed")
        res.count("bytes", len(want)); res.count("writes", len(w) + 2)
        if res.sample is None: res.sample = {"bytes": len(want), "commands": cmds}

DIR = re.compile(r"\$\[\s+(?:\$\(.*?\$\)\s+)?(\S+)\s+(?:\$\(.*?\$\)\s+)?\$\]", re.S)

def canon(files, used):
    """the included files as /SPLIT writes them: every directive in canonical form"""
    out = {}
    for n in used:
        t = files[n]; res = ""; pos = 0; toks = c05.tokens(t); i = 0
        while i < len(toks):
            if toks[i][0] == "$[" and not toks[i][3]:
                j = i + 1
                while toks[j][3]: j += 1
                nm = toks[j][0]; j += 1
                while toks[j][3]: j += 1
                res += t[pos:toks[i][1]] + "$[ %s $]" % nm; pos = toks[j][2]; i = j
            i += 1
        out[n] = norm_src(res + t[pos:])
    return out

def merged(cf, name, seen):
    seen.add(name); t = cf[name]; out = ""; pos = 0; toks = c05.tokens(t)
    for i, (x, a, b, c) in enumerate(toks):
        if x == "$[" and not c:
            nm = toks[i + 1][0]; e = toks[i + 2][2]
            out += t[pos:a]
            # the white space character after the directive belongs to the markup
            if nm in seen: out += "$( Skip $[ %s $] $)" % nm
            else: out += "$( Begin $[ %s $] $)\n" % nm + merged(cf, nm, seen) + "$( End $[ %s $] $)" % nm
            pos = e
    return out + t[pos:]

def tree(res, rng, ctx):
    with drive.Scratch() as sc:
        if rng.random() < .4: text = scopegen.make(rng, comments=rng.random() < .3, bad=False)
        else: text, g, pr = mmgen.make_db(rng, comments=False, desc=rng.random() < .4, nth=rng.randint(2, 6))
        b = c05.Builder(rng, text, "stmt" if rng.random() < .8 else "tok")
        try: b.files["main.mm"] = b.build("main.mm", 0, len(text), 0, ["main.mm"])
        except IndexError: return
        files = b.files
        if rng.random() < .9: files = {n: DIR.sub(lambda m: " " if m.group(1) == "main.mm" else m.group(0), t) for n, t in files.items()}
        if rng.random() < .3: files = {n: t.replace("\n", "\r\n") for n, t in files.items()}
        try: pieces = c05.expand(files, "main.mm", set(), [])
        except (IndexError, AssertionError): res.count("skipped"); return
        used = ["main.mm"] + sorted(set(p[1] for p in pieces if p[1]) - {"main.mm"})
        ref = "".join(p[0] for p in pieces)
        try: db = mmref.parse(ref)
        except mmref.MMError: res.count("skipped"); return
        if any(m.group(1) == "main.mm" for t in files.values() for m in DIR.finditer(t)): res.count("self-include"); return
        for n, t in files.items(): sc.write(n, t); sc.write("o/" + n, "")
        for n in files: os.unlink(sc.path("o/" + n))
        cf = canon(files, used); mg = merged(cf, "main.mm", set())
        P = [s for s in db.stmts[1:] if s.type == "p"]
        fs = dict(files)
        cmds = ["read main.mm"]
        def bad(k, d, c=None): res.bad(k, d, fs, c or cmds)
        def go(c, cwd=None):
            s = drive.run(ctx["bin"], c, cwd or sc.d)
            return s if res.check_session(s, fs) else None
        # one session: merged copy, then the split files in another directory
        cmds = ["read main.mm", "write source m.mm /keep_includes"]
        if rng.random() < .5: cmds.append("write source m1.mm /keep_includes /no_versioning")
        if rng.random() < .4: cmds.append("verify proof *")
        cmds += ["set root_directory o", "write source main.mm /split"]
        before = {n: sc.read(n) for n in sc.ls()}
        s = go(cmds)
        if s is None: return
        if drive.READ_OK not in s.seg(0): return bad("read", s.seg(0)[-2000:])
        for f in ["m.mm"] + (["m1.mm"] if "m1.mm" in cmds[2] else []):
            o = sc.read(f); res.ev((hash(mg), f))
            if o != mg: bad("merged", "the merged output differs %s" % first_diff(o or "", mg)); return
        for n in used:
            o = sc.read("o/" + n); res.ev((n, hash(cf[n])))
            if o != cf[n]: bad("split", "/SPLIT wrote %s differently %s" % (n, first_diff(o or "", cf[n]))); return
        for n in before:
            if sc.read(n) != before[n]: bad("touched", "%s was changed by writing elsewhere" % n)
        extra = set(sc.ls()) - set(before) - set("o/" + n for n in used) - {"m.mm", "m1.mm"}
        if extra: bad("extra", "unexpected files %s" % sorted(extra))
        res.count("trees"); res.count("files", len(used))
        o = os.path.join(sc.d, "o")
        snap = lambda: {n[2:]: sc.read(n) for n in sc.ls() if n.startswith("o/")}
        base = snap()
        # write back over itself with /SPLIT, possibly after saving proofs
        cmds = ["read main.mm"]; saved = []
        if P and b.mode == "stmt" and rng.random() < .7:
            for _ in range(rng.randint(1, 3)):
                p = rng.choice(P); saved.append(p.label); cmds.append("save proof %s /%s" % (p.label, rng.choice(["normal", "compressed", "packed", "explicit"])))
        cmds += ["write source main.mm /split", "write source \"../flat.mm\" /keep_includes"]
        s = go(cmds, o)
        if s is None: return
        now = snap()
        try: pc = c05.expand({n: now[n] for n in used}, "main.mm", set(), [])
        except KeyError as e: return bad("split-lost", "file %s vanished from the split output: %s" % (e, s.seg(len(cmds) - 2)))
        try: db2 = mmref.parse("".join(p[0] for p in pc))
        except mmref.MMError as e: return bad("split-broken", "after SAVE PROOF and /SPLIT the files no longer parse: %s" % e)
        for a, c in zip(db.stmts[1:], db2.stmts[1:]):
            if (a.type, a.label, a.math) != (c.type, c.label, c.math) or (a.proof != c.proof and a.label not in saved): bad("split-other", "statement %s changed" % a.label)
            elif a.label in saved and c08.pkey(db, a) != c08.pkey(db2, c): bad("split-proof", "the saved proof of %s changed" % a.label)
        if len(db.stmts) != len(db2.stmts): bad("split-count", "number of statements changed")
        for n in used:
            res.ev((n, "again", hash(now.get(n))))
            if n == "main.mm" or now[n] != base[n]:
                if now.get(n + "~1") != base[n]: bad("split-backup", "%s was rewritten but %s~1 is not its previous version" % (n, n))
            elif n + "~1" in now: bad("split-needless", "%s did not change but was rewritten" % n)
            if not saved and now[n] != base[n]: bad("not-idempotent", "%s changed when written back: %s" % (n, first_diff(now[n], base[n])))
        texts = [c08.CONTRIB.sub("", "".join(c08.outside(x, y))) for x, y in (("".join(p[0] for p in c05.expand({n: base[n] for n in used}, "main.mm", set(), [])), db), ("".join(p[0] for p in pc), db2))] if saved and not any(a.proof_text is None for a in P) else None
        if texts and len(texts[0]) <= len(texts[1]):
            # everything except the proofs (and the contributor tags SAVE adds) is kept
            t0 = "".join(c08.CONTRIB.sub("", x) for x in c08.outside("".join(p[0] for p in c05.expand({n: cf[n] for n in used}, "main.mm", set(), [])), mmref.parse("".join(p[0] for p in c05.expand({n: cf[n] for n in used}, "main.mm", set(), [])))))
            t1 = "".join(c08.CONTRIB.sub("", x) for x in c08.outside("".join(p[0] for p in pc), db2))
            if t0 != t1: bad("split-text", "text outside the saved proofs changed %s" % first_diff(t1, t0))
        # default writing merges and renames the included files; /SPLIT recovers them
        fl = sc.read("flat.mm")
        if fl is None: return bad("no-flat", str(s.seg(len(cmds) - 1)))
        for n in list(now):
            if "~" in n: os.unlink(sc.path("o/" + n))
        nov = rng.random() < .3
        cmds = ["read main.mm", "write source all.mm" + (" /no_versioning" if nov else ""), "erase", "read all.mm", "write source main.mm /split" + (" /no_versioning" if nov else "")]
        cur = {n: now[n] for n in used}
        half = go(cmds[:2], o)
        if half is None: return
        h = snap()
        mg2 = merged(cur, "main.mm", set())
        if h.get("all.mm") != mg2: bad("merge", "WRITE SOURCE of the tree differs %s" % first_diff(h.get("all.mm") or "", mg2)); return
        for n in used[1:]:
            res.ev((n, "merge"))
            if n in h: bad("merge-left", "%s still exists after merging (it should have been renamed)" % n)
            if nov and n + "~1" in h: bad("merge-nov", "%s~1 was made in spite of /NO_VERSIONING" % n)
            if not nov and h.get(n + "~1") != cur[n]: bad("merge-lost", "%s was not kept as %s~1" % (n, n))
        if h.get("main.mm") != cur["main.mm"]: bad("merge-main", "main.mm changed")
        if fl != mg2: bad("flat", "merged output with /KEEP_INCLUDES differs from the one without %s" % first_diff(fl, mg2))
        # stale files of nearly the same content must not be taken for the real ones
        for n in used[1:]:
            if rng.random() < .4:
                c = cur[n]
                stale = rng.choice([c + "$( more $)\n", c[:-1], c[:len(c) // 2], "", c[:-1] + "x", c.replace(" ", "  ", 1), "\n" + c])
                if stale + "\n" == c: continue  # a missing line end counts as the same content
                sc.write("o/" + n + rng.choice(["", "~1"]), stale); res.count("stale")
        s = go(["read all.mm", "write source main.mm /split" + (" /no_versioning" if nov else "")], o)
        if s is None: return
        now = snap()
        for n in used:
            res.ev((n, "recovered"))
            if now.get(n) != cur[n]: bad("recover", "%s is not restored by /SPLIT %s\n%s" % (n, first_diff(now.get(n) or "", cur[n]), s.seg(1))); break
        if res.sample is None: res.sample = {"files": used, "saved": saved}

def clash(res, rng, ctx):
    """/SPLIT refuses to overwrite an included file with the main file; unwritable targets keep everything"""
    with drive.Scratch() as sc:
        text = mmgen.make_db(rng, comments=False, desc=False, nth=2)[0]
        cut = text.index("$.") + 2
        files = {"main.mm": "$[ x.mm $]" + text[cut:], "x.mm": text[:cut] + "\n"}
        for n, t in files.items(): sc.write(n, t)
        cmds = ["read main.mm", "write source x.mm /split", "write source nodir/y.mm", "write source nodir/y.mm /split", "write source ok.mm /keep_includes"]
        cmds = [c.replace("nodir/y.mm", '"nodir/y.mm"') for c in cmds]
        s = drive.run(ctx["bin"], cmds, sc.d)
        if not res.check_session(s, files): return
        res.ev(hash(text))
        for n, t in files.items():
            if sc.read(n) != t: res.bad("clash", "%s was overwritten\n%s" % (n, s.seg(1)), files, cmds)
        if "not written" not in (s.seg(1) or ""): res.bad("clash-silent", s.seg(1) or "", files, cmds)
        for i in (2, 3):
            if "?" not in (s.seg(i) or "") : res.bad("no-error", "writing to a missing directory gives no error: %r" % s.seg(i), files, cmds)
            if "were written" in (s.seg(i) or ""): res.bad("false-success", "writing to a missing directory is reported as successful: %r" % s.seg(i), files, cmds)
        if sc.read("ok.mm") != merged(canon(files, list(files)), "main.mm", set()): res.bad("after", "output differs after failed attempts", files, cmds)
        if set(sc.ls()) != {"main.mm", "x.mm", "ok.mm"}: res.bad("clash-files", str(sc.ls()), files, cmds)

if __name__ == "__main__":
    c = harness.Check("C09", assumptions=["the reference expansion and canonical directive form are those of checks/c05.py and c09.py"])
    ctx = {"bin": harness.build("plain")}
    c.run("single", single, c.n(4000, 60000), ctx, "random databases with random white space, comments, line ends and file ends; random other commands before; every WRITE SOURCE output compared byte for byte, also after re-reading it")
    c.run("tree", tree, c.n(1500, 20000), ctx, "random include trees: merged output, /SPLIT into another directory, /SPLIT in place after SAVE PROOF, merging with renamed includes and recovery; every file compared byte for byte with a reference")
    c.run("clash", clash, c.n(40, 400), ctx, "output name equal to an included file, and unwritable outputs")
    c.finish(min_evals=1000)
