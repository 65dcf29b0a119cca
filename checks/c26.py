"""C26: line wrapping and paging never lose or alter what commands print.
width: the same commands at width 9999 and at another width: same words in the same order (below the standard width of 79
only the non-blank characters are compared, as fixed messages are broken anywhere), no line longer than the width where it
could have been broken, same files.  scroll: prompted scrolling with random answers (next, back, scroll, quit, wrong keys)
must show exactly what a model of the pager computes from the continuous output."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, drive, cmdgen, mmgen, c22

def commands(rng, c, n, write=True):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .6: out.append([c.show().text()])
        elif k < .7 and write: out.append([c.write().text()])
        elif k < .76: out.append([c.wrong() or "x"])
        elif k < .84: out.append(c.pa())
        elif k < .88: out.append(c.tools())
        else: out.append([rng.choice(["show statement * /full", "show labels *", "show proof * /all", "help " + rng.choice(["language", "verify markup", "let", "minimize_with", "show proof", "write source", "set scroll"]), "show discouraged", "verify proof *", "show trace_back %s /tree" % c.label("thms"), "search * \"$* $*\" /all", "show usage * /recursive", "show settings"])])
    return [g for g in out if not any(x.strip() in ("", "s", "b", "!") or x.startswith("submit") for x in g)]

WIDE = re.compile(r"-{3,}|={3,}|\.{3,}")
def flat(cmd, t):
    """text of an output without what rightly depends on the width"""
    for a, b in c22.VARY: t = a.sub(b, t)
    return t

def skip(cmd):
    return re.search(r"/com|/tree|verify markup|/compressed|/packed /old|rewrap|/format|show settings", cmd)

def width(res, rng, ctx):
    d = cmdgen.rich_db(rng, tex=rng.random() < .6, **({"allow_long": True} if False else {})); c = cmdgen.Commands(rng, d)
    files = dict(cmdgen.PAGES); files.update({"main.mm": d["text"], "other.mm": "$c a $.\n", "a.txt": "b a\nq a z\n", "b.txt": "x\n"})
    w = rng.choice([79, 79, 80, 90, 100, 132, 200, 300, rng.randint(79, 400)]) if rng.random() < .7 else rng.randint(20, 78)
    groups = commands(rng, c, rng.choice([5, 12]))
    cmds = ["read main.mm"] + sum([g for g in groups if not any(re.search("rewrap|/format|minimize", x) for x in g)], [])
    if rng.random() < .3: cmds += ["save proof %s /normal" % d["thms"][0], "write source s.mm"]
    runs = []
    for W in (9999, w):
        with drive.Scratch() as sc:
            for f, x in files.items(): sc.write(f, x)
            s = drive.run(ctx["bin"], cmds, sc.d, pre=["set scroll continuous", "set width %d" % W], timeout=30, end=("exit", "y", "exit /force"))
            if not res.check_session(s, files): return
            runs.append((s, {q: sc.read(q) for q in sc.ls()}))
    A, B = runs[0][0].segs, runs[1][0].segs
    def bad(k, t): res.bad(k, t, files, runs[1][0].cmds)
    if len(A) != len(B): bad("steps", "%d commands were executed at width 9999 but %d at width %d" % (len(A), len(B), w)); return
    for i, ((p, x), (q, y)) in enumerate(zip(A, B)):
        cm = cmds[i] if i < len(cmds) else "exit"
        if skip(cm): continue
        words = w >= 79 and not cm.startswith("show source")            # SHOW SOURCE prints the lines of the file, broken anywhere
        if "\x03" in y: bad("control", "%r prints an ASCII 3" % cm); return
        if words: x, y = flat(cm, x), flat(cm, y)
        res.ev((cm, hash(y), w)); res.count("outputs compared"); res.count("lines", y.count("\n"))
        if p != q: bad("prompt", "after %r the prompt is %r at width 9999 but %r at width %d" % (cm, p, q, w)); return
        u, v = (WIDE.sub(" ", x), WIDE.sub(" ", y)) if words else (re.sub("[-=.^]", "", x), re.sub("[-=.^]", "", y))
        # the line of a marker under a wrong word is not text
        u, v = re.sub(r"\^+", "^", u), re.sub(r"\^+", "^", v)
        if words: u, v = u.split(), v.split()
        else: u, v = "".join(u.split()), "".join(v.split())
        if u != v:
            j = next((k for k in range(min(len(u), len(v))) if u[k] != v[k]), min(len(u), len(v))); a = 12 if words else 80
            bad("words:" + " ".join(cm.split()[:2]), "%r prints at width 9999\n...%s\nbut at width %d\n...%s" % (cm, u[max(0, j - a):j + a], w, v[max(0, j - a):j + a])); return
        for l in y.split("\n"):
            if w >= 60 and len(l) > w and re.search(r"\S {1,2}\S", l[:w]) and not l.startswith("<") and (w >= 79 or not re.search("html|mnemonics|bibliography|theorem_list|recent", cm)):
                bad("long-line", "%r prints at width %d a line of %d characters: %r" % (cm, w, len(l), l)); return
    fa, fb = runs[0][1], runs[1][1]
    for n in sorted(set(fa) | set(fb)):
        if n.endswith(".mm") and n not in files and re.search("compressed|packed|new_proof", " ".join(cmds)): continue
        u, v = flat("", fa.get(n) or "(no file)"), flat("", fb.get(n) or "(no file)"); res.count("files compared")
        if "\x03" in v: bad("control", "%s contains an ASCII 3 (an internal mark for a blank)" % n); return
        if n.endswith((".mm", ".txt")) or "~" in n: u, v = u.split(), v.split()
        else:
            # blanks next to tags are nothing to HTML
            u, v = re.sub(r"\s*([<>])\s*", r"\1", u).split(), re.sub(r"\s*([<>])\s*", r"\1", v).split()
        if u != v:
            j = next((k for k in range(min(len(u), len(v))) if u[k] != v[k]), min(len(u), len(v)))
            bad("file:" + n.split(".")[-1], "%s is written at width 9999 as\n...%s\nbut at width %d as\n...%s" % (n, u[max(0, j - 8):j + 8], w, v[max(0, j - 8):j + 8])); return
    if res.sample is None: res.sample = {"width": w, "commands": cmds[:10]}

P1 = "Press <return> for more, Q <return> to quit, S <return> to scroll to end... "
P2 = "Press <return> for more, Q <ret> quit, S <ret> scroll, B <ret> back up... "

class Pager:
    """what the screen shows; answers are drawn when a question is asked"""
    def __init__(self, rng, H): self.r = rng; self.H = H; self.buf = [""]; self.pos = 1; self.scr = ""; self.typed = []; self.asked = 0
    def answer(self):
        self.asked += 1
        a = self.r.choices(["", "b", "B", "s", "S", "q", "Q", "x", "xyz", " "], [20, 5, 2, 1, .5, self.q, self.q / 2, 1, 1, .5])[0]
        self.typed.append(a); return a
    def question(self, back):
        """the loop of questions; returns 'q', 's' or ''"""
        while True:
            if back and self.pos == len(self.buf): return ""
            self.scr += P1 if self.pos == 1 else P2
            a = self.answer()
            if a == "":
                if self.pos == len(self.buf): return ""
                self.pos += 1; self.scr += self.buf[self.pos - 1]; continue
            if len(a) == 1:
                if a in "qQ": return "q"
                if a in "sS":
                    while self.pos + 1 <= len(self.buf): self.pos += 1; self.scr += self.buf[self.pos - 1]
                    return "s"
                if self.pos > 1 and a in "bB":
                    self.pos -= 1; self.scr += self.buf[self.pos - 1]; continue
                self.scr += "\x07"; continue
            # a longer answer is read up to its end and ignored
    def command(self, prompt, cmd, text, quit):
        self.q = 1 if quit else 0
        self.scr += prompt; self.typed.append(cmd); self.buf = [prompt + cmd + "\n"]; self.pos = 1
        n = 0; local = True
        for l in text.splitlines(True):
            if local and n >= self.H:
                a = self.question(False)
                if a == "q": return
                if a == "s": local = False
                n = 0; self.pos += 1; self.buf.append("")
            self.scr += l
            if l.endswith("\n"):
                n += 1
                if not local and n > self.H: n = 1; self.pos += 1; self.buf.append("")
            self.buf[self.pos - 1] += l
    def back(self, prompt):
        """B typed at the prompt pages back"""
        self.q = 1; self.scr += prompt; self.typed.append(self.r.choice("bB"))
        self.pos = len(self.buf) - 1; self.scr += self.buf[self.pos - 1]
        self.question(True)

def scroll(res, rng, ctx):
    d = cmdgen.rich_db(rng, tex=rng.random() < .3); c = cmdgen.Commands(rng, d)
    files = dict(cmdgen.PAGES); files.update({"main.mm": d["text"], "other.mm": "$c a $.\n", "a.txt": "b a\nq a z\n", "b.txt": "x\n"})
    w = rng.choice([60, 79, 79, 100, 9999]); h = rng.choice([2, 3, 5, 10, 24, 46, rng.randint(2, 60)])
    groups = commands(rng, c, rng.choice([4, 10])); cmds = [x for g in groups for x in g if x != "show settings"]
    head = ["set width %d" % w, "set height %d" % h]
    with drive.Scratch() as sc:
        for f, x in files.items(): sc.write(f, x)
        s = drive.run(ctx["bin"], head + ["set scroll continuous", "read main.mm"] + cmds, sc.d, pre=[], timeout=30, end=("exit", "y", "exit /force"))
        if not res.check_session(s, files): return
        segs = s.full; fa = {q: sc.read(q) for q in sc.ls()}
    lines = head + ["set scroll prompted", "read main.mm"] + cmds + ["exit", "y", "exit /force"]
    pg = Pager(rng, h - 1); pg.scr = s.banner; n = len(head) + 1; end = None; quitted = False
    parts = drive.PROMPT.split(s.out); last = parts[-2:]
    for i, (p, t) in enumerate(segs):
        cmd = lines[i]; raw = parts[2 * i + 2]; p = parts[2 * i + 1]
        if i < n:
            pg.scr += p + (raw if i < n - 1 else "Prompted scrolling is now in effect.\n"); pg.typed.append(cmd); pg.buf = [p + cmd + "\n" + raw]; pg.pos = 1; continue
        plain = re.match(r"(show|help|search|verify)", cmd) and not re.search("html|mnemonics|/time", cmd)
        if i >= n + 1 + len(cmds): break
        pg.command(p, cmd, raw, plain)
        if len(pg.buf) > 1 and rng.random() < .3: pg.back(p_next(parts, i))
    with drive.Scratch() as sc:
        for f, x in files.items(): sc.write(f, x)
        s2 = drive.run(ctx["bin"], pg.typed, sc.d, pre=[], timeout=30, end=("exit", "y", "exit /force", "", "", "exit /force"))
        if not res.check_session(s2, files): return
        fb = {q: sc.read(q) for q in sc.ls()}
    def bad(k, t): res.bad(k, t, files, pg.typed)
    res.ev((hash(pg.scr), h, w)); res.count("questions", pg.asked); res.count("commands", len(cmds)); res.count("pages", pg.scr.count(P2) + pg.scr.count(P1))
    pg.scr = pg.scr.replace("SCROLLing mode is CONTINUOUS", "SCROLLing mode is PROMPTED")
    x, y = c22.undate(pg.scr), c22.undate(s2.out[:len(pg.scr) + 400])
    for a, b in c22.VARY + [(re.compile(r"(statement\s+for\s+SHOW\s+commands\s+is)\s+\S+"), r"\1 ...")]: x, y = a.sub(b, x), a.sub(b, y)
    if not y.startswith(x):
        j = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
        bad("pages", "with height %d and prompted scrolling the screen shows\n...%s<<HERE>>%s\nbut expected was\n%s" % (h, y[max(0, j - 300):j], y[j:j + 300], x[j:j + 300])); return
    for q in sorted(set(fa) | set(fb)):
        u, v = flat("", fa.get(q) or "(no file)"), flat("", fb.get(q) or "(no file)"); res.count("files compared")
        if u != v: bad("file", "%s differs with prompted scrolling" % q); return
    if res.sample is None: res.sample = {"height": h, "width": w, "typed": pg.typed[:12]}

def p_next(parts, i):
    return parts[2 * i + 3]

if __name__ == "__main__":
    c = harness.Check("C26", assumptions=["messages longer than the width that the program prints whole are broken anywhere when the width is below the standard 79", "search excerpts, the excerpts of /TREE, warnings about long lines, the rules of dashes and the order of labels in compressed proofs depend on the width by design"])
    ctx = {"bin": harness.build("plain")}
    c.run("width", width, c.n(2000, 40000), ctx, "random commands at width 9999 and at another width")
    c.run("scroll", scroll, c.n(1500, 30000), ctx, "random commands with prompted scrolling, random heights and random answers against a model of the pager")
    c.run("san", scroll, c.n(60, 2000), {"bin": harness.build("asan")}, "the pager under ASan and UBSan")
    c.finish(min_evals=2000)
