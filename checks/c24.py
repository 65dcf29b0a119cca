"""C24: logs and command files reproduce the session.
log: the text between OPEN LOG and CLOSE LOG must be the screen text with the typed lines inserted after the prompts.
submit: typing lines, running them from (nested) command files, and running them with /SILENT must give the same transcript
in the log, the same screen output (none when silent), the same files, and control must return to the next line."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, drive, cmdgen, c22

STATIC = {"a.txt": "b a\nq a z\n", "b.txt": "x\n", "other.mm": "$c a $.\n", "mm.txt": "a ` x ` ~ y <HTML> [Author]\n"}
STATIC.update(cmdgen.PAGES)

def normal(t):
    for a, b in c22.VARY: t = a.sub(b, t)
    return t

def lines(rng, c, n, asks=True):
    """groups of command lines that always belong together"""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .4: out.append([c.show().text()])
        elif k < .5: out.append([c.write().text()])
        elif k < .6:
            w = c.wrong()
            while w.strip() in ("", "s", "close log") or w.startswith("submit"): w = c.wrong()
            out.append([w])
        elif k < .72: out.append(c.pa())
        elif k < .78: out.append(c.tools())
        elif k < .84: out.append([c.settings()])
        elif k < .88: out.append(["save proof %s /%s" % (c.pattern("thms"), rng.choice(["normal", "compressed", "packed"]))])
        elif k < .92: out.append(["! a comment, %s" % rng.choice(["", "show labels *", "'", '"'])])
        elif k < .95 and asks: out.append(rng.choice([["show labels", "*", ""], ["show", "labels", "*", ""], ["save proof", c.label("thms"), "/", "compressed", ""], ["erase", "n"], ["search *", "x", ""], ["verify proof", c.label("thms"), ""], ["show statement", c.label(), ""]]))
        else: out.append([rng.choice(["verify proof *", "show statement *", "show proof * /all", "help", "show discouraged", "verify markup *", "show labels * /all"])])
    return out

def align(S, L, inputs):
    """L must be S with inputs[k] inserted after the k-th prompt; returns (position, message) or None, and the number of inputs used"""
    i = j = k = 0
    while i < len(S) or j < len(L):
        if S.startswith("Press <return> for more, ", i):            # scrolling prompt: not logged, takes a line
            i = S.index("... ", i) + 4; k += 1; continue
        if k < len(inputs) and i >= 2 and (S[i - 1] == "?" or S[i - 1] == " " and S[i - 2] in ">?") and L.startswith(inputs[k] + "\n", j) and not (S.startswith(inputs[k] + "\n", i) and False):
            j += len(inputs[k]) + 1; k += 1; continue
        if i < len(S) and j < len(L) and S[i] == L[j]: i += 1; j += 1; continue
        if k < len(inputs) and inputs[k] == "" and any(S.startswith(p, i) and S.endswith(p, 0, i) for p in PROMPTS): # an empty line at the main prompt is not a command
            i += next(len(p) for p in PROMPTS if S.startswith(p, i)); k += 1; continue
        return (i, j), k
    return None, k

PROMPTS = ("MM> ", "MM-PA> ", "TOOLS> ")
def log(res, rng, ctx):
    d = cmdgen.rich_db(rng, tex=rng.random() < .5); c = cmdgen.Commands(rng, d)
    files = dict(STATIC); files["main.mm"] = d["text"]
    w = rng.choice([60, 79, 79, 79, 100, 9999]); scroll = rng.random() < .25
    pre = ["set scroll continuous", "set width %d" % w]
    cmds = ["read main.mm"]; regions = []; n = 1 if scroll else rng.choice([1, 1, 2, 3])
    for q in range(n):
        cmds += sum(lines(rng, c, rng.randint(0, 2), False), [])
        name = rng.choice(["s%d.log" % q, "s.log", "\"my log\"", "S.LOG"])
        cmds.append("open log %s" % name); a = len(cmds)
        if scroll and rng.random() < .5: cmds += ["set height %d" % rng.choice([3, 10, 20, 46]), "set scroll prompted"]
        for g in lines(rng, c, rng.choice([1, 5, 12]), not scroll):
            cmds += g
        if scroll: cmds += ["s"] * rng.choice([3, 60]) + ["set scroll continuous"]
        last = q == n - 1 and rng.random() < .4
        if not last: cmds.append("close log")
        regions.append((name.strip('"'), a, len(cmds), last))
    tail = ["exit", "y"]
    with drive.Scratch() as sc:
        for f, t in files.items(): sc.write(f, t)
        s = drive.run(ctx["bin"], cmds, sc.d, end=tail, pre=pre, timeout=30)
        if not res.check_session(s, files): return
        out = s.out; at = 0; vers = {}
        for r in reversed(regions):
            nm = r[0]; vers.setdefault(nm, []).append(r)
        for name, a, b, last in regions:
            k = vers[name].index((name, a, b, last))
            fn = name if k == 0 else "%s~%d" % (name, k)
            L = sc.read(fn)
            m = re.compile(r'(?m)^(?:(?:MM> |MM-PA> |TOOLS> )*)(The log file "%s" was opened [^\n]*\n)' % re.escape(name)).search(out, at)
            if not m: res.unsure("log start not found"); return
            p = m.start(1)
            m2 = re.compile(r'(?m)The log file "%s" was closed [^\n]*\n' % re.escape(name)).search(out, p)
            if not m2: res.unsure("log end not found"); return
            S = out[p:m2.end()]; at = m2.end()
            if L is None: res.bad("no-log", "no log file %s" % fn, files, s.cmds); return
            inputs = (cmds + tail)[a:]
            e, k = align(S, L, inputs)
            if e and scroll:
                # answers to the scrolling prompt may be more or fewer than planned: only an order-preserving check
                S2 = re.sub(r"\x07|Press <return> for more, [^\n]*?\.\.\. ", "", S)
                e, k = align_loose(S2, L, inputs); S = S2
            res.ev((hash(L), w)); res.count("log files"); res.count("log bytes", len(L))
            if e:
                i, j = e
                res.bad("log-differs", "the log %s differs from the screen: screen\n...%s<<HERE>>%s...\nlog\n...%s<<HERE>>%s... (next typed lines %s)" % (fn, S[max(0, i - 300):i], S[i:i + 200], L[max(0, j - 300):j], L[j:j + 200], inputs[k:k + 2]), files, s.cmds); return
            if not last and k != b - a: res.bad("log-commands", "the log %s shows %d of %d typed lines" % (fn, k, b - a), files, s.cmds) if not scroll else None
    if res.sample is None: res.sample = {"commands": cmds[:12], "log": L[:200]}

def align_loose(S, L, inputs):
    """like align, but typed lines may have been taken as answers to scrolling prompts"""
    i = j = k = 0
    while i < len(S) or j < len(L):
        if k < len(inputs) and i >= 2 and (S[i - 1] == "?" or S[i - 1] == " " and S[i - 2] in ">?"):
            q = next((q for q in range(k, len(inputs)) if L.startswith(inputs[q] + "\n", j)), None)
            if q is not None and not (i < len(S) and S.startswith(inputs[q] + "\n", i)):
                j += len(inputs[q]) + 1; k = q + 1; continue
        if i < len(S) and j < len(L) and S[i] == L[j]: i += 1; j += 1; continue
        return (i, j), k
    return None, k

def clean(t):
    """transcript without the lines that only announce command files, and without lines with nothing but a prompt"""
    o = []
    for l in normal(t).split("\n"):
        if re.match(r'Taking command lines from file "', l) or re.match(r'(MM> |MM-PA> |TOOLS> )?\[End of command file "', l) or re.match(r"(MM> |MM-PA> |TOOLS> )*submit [^ ]*( / ?silent)?$", l) or l.startswith("!SUBMIT ") or l == "!" or re.match(r"(MM> |MM-PA> |TOOLS> )+(! note)?$", l): continue
        o.append(l)
    return "\n".join(o)

def submit(res, rng, ctx):
    d = cmdgen.rich_db(rng, tex=rng.random() < .5); c = cmdgen.Commands(rng, d)
    base = dict(STATIC); base["main.mm"] = d["text"]
    groups = lines(rng, c, rng.choice([2, 6, 15]))
    typed = sum(groups, [])
    probe = ["show settings", "show labels * /all", "write source probe.mm", "count b.txt x" if False else "show statement * /full"]
    # distribute the lines over nested command files
    files = {}; cnt = [0]
    def pack(ls, depth):
        """the lines, with some runs moved to command files"""
        out = []; i = 0
        while i < len(ls):
            if rng.random() < .03: out.append("")
            if rng.random() < .03: out.append("! note")
            if depth < 10 and rng.random() < (.12 if depth > 1 else .2):
                n = rng.randint(0, len(ls) - i); cnt[0] += 1; fn = "f%d.cmd" % cnt[0]; files[fn] = None
                body = pack(ls[i:i + n], depth + 1); eol = rng.choice(["\n", "\n", "\r\n"])
                t = eol.join(body) + (eol if body and (rng.random() < .7 or body[-1] == "") else "")
                files[fn] = t; out.append(("submit %s" % fn) + (" / silent" if rng.random() < .15 else "")); i += n
            else: out.append(ls[i]); i += 1
        return out
    cnt[0] = 1; body = pack(typed, 1)
    # an answer line must come from where the question was asked or from the caller: a file that ends there answers with an empty line
    bare = [i for i, g in enumerate(groups) if len(g) > 1 and g[0] in ("show labels", "show", "erase", "search *", "verify proof", "show statement", "save proof")]
    if bare and any(b != a for a, b in zip(body, typed)):
        # keep questions and answers together: only the outermost file
        files.clear(); body = list(typed)
    files["f1.cmd"] = "\n".join(body) + (rng.choice(["\n", ""]) if body[-1:] != [""] else "\n")
    deepest = rng.random() < .1
    if deepest:
        for q in range(2, 20): files["n%d.cmd" % q] = "submit n%d.cmd\nshow labels *\n" % (q + 1)
        files["n20.cmd"] = "show labels *\n"; first = rng.choice([2, 8, 10, 11, 12, 15])
        body += ["submit n%d.cmd" % (first + 1), "show labels *"]; files["f1.cmd"] = "\n".join(body) + "\n"
    runs = {}
    for mode in ("typed", "file", "silent"):
        with drive.Scratch() as sc:
            for f, t in list(base.items()) + list(files.items()): sc.write(f, t)
            mid = typed + (["show labels *"] * 5 if False else []) if mode == "typed" else ["submit f1.cmd" + (" /silent" if mode == "silent" else "")]
            if deepest and mode == "typed": mid = mid + ["submit n%d.cmd" % first]
            s = drive.run(ctx["bin"], ["read main.mm", "open log x.log"] + mid + ["\"echo after\""] + probe + ["close log"], sc.d, end=("exit", "y"), timeout=30)
            if not res.check_session(s, dict(base, **files)): return
            if deepest:
                # SUBMIT can be nested up to 10 levels (HELP SUBMIT)
                at = s.out.find('Taking command lines from file "n%d.cmd"' % (first + (mode != "typed"))) if mode != "silent" else sc.read("x.log").find("submit n%d.cmd" % (first + 1))
                t = (s.out if mode != "silent" else sc.read("x.log"))[at:]; want = min(10 - (mode != "typed"), 20 - first + (mode == "typed"))
                got = len(set(re.findall(r'(?:End of command file|Taking command lines from file) "(n\d+\.cmd)"', t)))
                res.count("nesting levels", got)
                if got != want or ("nesting level has been exceeded" in t) != (20 - first + (mode == "typed") > want): res.bad("nesting", "%d nested command files were run, %d expected (%s)" % (got, want, mode), dict(base, **files), s.cmds); return
            runs[mode] = (s, sc.read("x.log"), {n: sc.read(n) for n in sc.ls() if not n.endswith(".cmd") and n != "x.log"})
    f = dict(base, **files)
    a = runs["typed"]
    for mode in ("file", "silent"):
        b = runs[mode]; res.ev((mode, hash(a[1]))); res.count("command file runs"); res.count("lines in command files", len(typed)); res.count("command files", len(files))
        x, y = clean(a[1]), clean(b[1])
        if x != y:
            j = next((q for q in range(min(len(x), len(y))) if x[q] != y[q]), min(len(x), len(y)))
            res.bad("transcript-differs", "typing the lines logs\n...%s<<HERE>>%s\nbut the command file (%s) logs\n...%s<<HERE>>%s" % (x[max(0, j - 200):j], x[j:j + 200], mode, y[max(0, j - 200):j], y[j:j + 200]), f, b[0].cmds); return
        for n in sorted(set(a[2]) | set(b[2])):
            u, v = c22.undate(c22.PAGE.sub("", a[2].get(n) or "(no file)")), c22.undate(c22.PAGE.sub("", b[2].get(n) or "(no file)"))
            res.count("files compared")
            if u != v: res.bad("effect-differs", "file %s differs after typing the lines and after the command file (%s)" % (n, mode), f, b[0].cmds); return
        i = [q for q, (p, o) in enumerate(b[0].segs) if o.startswith("after\n")]
        if len(i) != 1: res.bad("return", "the line after SUBMIT (%s) was not executed (or executed %d times)" % (mode, len(i)), f, b[0].cmds); return
        k = i[0]
        # from there on everything is shown on the screen again
        T = b[1][b[1].index("\"echo after\"\n") + 13:]; S = b[0].out; S = S[S.rindex("\nMM> after\n" if "\nMM> after\n" in S else "after\n"):]; S = S[S.index("after\n") + 6:]
        q = S.rfind("The log file \"x.log\" was closed"); S = S[:S.index("\n", q) + 1] if q >= 0 else S
        e, _ = align(S, T, probe + ["close log", "exit", "y"])
        if e: res.bad("after-return", "after the command file (%s) the screen shows %r but the log %r" % (mode, S[e[0]:e[0] + 300], T[e[1]:e[1] + 300]), f, b[0].cmds); return
        if mode == "silent":
            shown = "".join(p + " " + o for p, o in b[0].segs[2:k])
            if shown.strip() not in ("MM>", ""): res.bad("not-silent", "SUBMIT /SILENT showed %r" % shown[:500], f, b[0].cmds); return
        elif not any(isinstance(t, str) and "silent" in t for t in files.values()):
            # the screen shows what the log recorded
            L = b[1]; i0 = L.index("\n", L.index("submit f1.cmd")) + 1; L = L[i0:]
            S = b[0].out; S = S[S.index("Taking command lines from file \"f1.cmd\""):]
            L = L[:L.index("\"echo after\"")] if "\"echo after\"" in L else L
            if normal(S[:len(L)]) != normal(L) and normal(S)[:len(normal(L))] != normal(L):
                j = next((q for q in range(min(len(L), len(S))) if L[q] != S[q]), 0)
                res.bad("screen-differs", "SUBMIT: screen ...%s<<HERE>>%s\nlog ...%s" % (S[max(0, j - 200):j], S[j:j + 200], L[j:j + 200]), f, b[0].cmds); return
    if res.sample is None: res.sample = {"typed": typed[:10], "files": {k: files[k][:150] for k in list(files)[:3]}}

if __name__ == "__main__":
    c = harness.Check("C24", assumptions=["dates, times and run times are left out of the comparison of two sessions", "screen output of operating system commands is not logged (documented)"])
    ctx = {"bin": harness.build("plain")}
    c.run("log", log, c.n(1500, 30000), ctx, "sessions with one to three logs, several widths, scrolling modes, questions, tools, proof assistant; log = screen + typed lines, byte for byte")
    c.run("submit", submit, c.n(700, 20000), ctx, "the same lines typed, run from nested command files and run silently: transcript, files and return to the caller compared")
    c.run("san", log, c.n(60, 2000), {"bin": harness.build("asan")}, "log sessions under ASan and UBSan")
    c.finish(min_evals=500)
