"""C22: inspection and failed commands leave the database unchanged.
Random sessions of displaying, searching, verifying, writing, help, settings, rejected commands, text tools and
Proof Assistant visits that save nothing.  The same probe (WRITE SOURCE, VERIFY PROOF, listings) is taken before,
between and after, and a handful of display commands recur at random places: every probe and every recurrence must
give the same bytes, and EXIT must not believe that something changed."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness, drive, cmdgen

# messages given once, when the typesetting definitions are (re-)read
ONCE = re.compile(r"(?m)^(Reading definitions from \$t statement of .*|\d+ typesetting statements were read from .*|Reading HTML bibliographic tags from file .*|\?Warning: In the \$t comment, .*|\?Warning: The file \".*?\", which is referenced in an htmldef statement, was not found\.)\n")
VARY = [(re.compile(r"\b\d{1,2}-[A-Z][a-z]{2}-\d{2,4}\b"), "DATE"), (re.compile(r"\b\d?\d:\d\d [AP]M\b"), "TIME"), (re.compile(r"run time = +[\d.]+ sec"), "RUNTIME")]
def normal(t):
    t = ONCE.sub("", t)
    for a, b in VARY: t = a.sub(b, t)
    return t
def undate(t):
    return re.sub(r"(?m)^(<[Cc].*|.*last updated.*|.*(?:created|generated) (?:by|on).*)$", lambda m: VARY[1][0].sub("TIME", VARY[0][0].sub("DATE", m.group(0))), t)

PROBE = ["verify proof *", "show labels * /all", "show statement * /full", "show proof * /compressed", "show discouraged"]

def safe(c):
    """a writing command that does not reformat the database in memory (/FORMAT and /REWRAP are documented to)"""
    while True:
        x = c.write()
        if not any(t in ("FORMAT", "REWRAP") for _, t in x.words): return x

def session(rng, d, c, n):
    """list of (command, tag): tag None, ('probe', i, k) or ('again', j)"""
    out = []; np = [0]
    def probe():
        k = np[0]; np[0] += 1
        out.append(("write source base%d.mm /keep_includes" % k, ("source", k)))
        for i, p in enumerate(PROBE): out.append((p, ("probe", i)))
    again = []
    for _ in range(rng.randint(2, 6)):
        x = c.show() if rng.random() < .85 else safe(c)
        if x.kind in ("w-source", "w-extract"): continue
        again.append(x)
    probe()
    for i in range(n):
        k = rng.random()
        if k < .4 and again: j = rng.randrange(len(again)); out.append((again[j].text(), ("again", j)))
        elif k < .58: out.append((c.show().text(), None))
        elif k < .68: out.append((safe(c).text(), None))
        elif k < .8: out.append((c.wrong(), None))
        elif k < .87: out += [(x, None) for x in c.pa()]
        elif k < .92: out += [(x, None) for x in c.tools()]
        elif k < .95: out.append((rng.choice(["set discouragement off", "set contributor \"A B\"", "set undo 3", "set jeremy_henty_filter off"]), None))
        elif k < .97: out += [("open log x%d.log" % i, None), (c.show().text(), None), ("close log", None)]
        else: out += [("file search main.mm \"$p\"", None), ("show settings", None), ("show memory", None)]
        if rng.random() < .08: probe()
    for j, x in enumerate(again): out.append((x.text(), ("again", j)))
    probe()
    return out, again

def history(res, rng, ctx):
    d = cmdgen.rich_db(rng); c = cmdgen.Commands(rng, d)
    seq, again = session(rng, d, c, rng.choice([6, 12, 25]))
    files = {"main.mm": d["text"]}; files.update(cmdgen.PAGES); files.update({"a.txt": "b a\nq a z\n", "b.txt": "x\n", "other.mm": "$c a $.\n"})
    if rng.random() < .2:
        # spread over an included file
        import deco
        tops = deco.top_level(d["text"])
        if len(tops) > 3 and "$[" not in d["text"]:
            a = rng.choice(tops[1:]); files["main.mm"] = d["text"][:a] + "$[ inc.mm $]\n"; files["inc.mm"] = d["text"][a:]
    with drive.Scratch() as sc:
        for n, t in files.items(): sc.write(n, t)
        cmds = ["read main.mm"] + [x for x, _ in seq]
        s = drive.run(ctx["bin"], cmds, sc.d, end=("exit", "n", "exit /force"), env=ctx.get("env"))
        if not res.check_session(s, files): return
        def bad(k, t): res.bad(k, t, files, cmds)
        if drive.READ_OK not in s.seg(0): res.unsure("read " + s.seg(0)[-300:]); return
        # commands that ask for file names etc. do not occur: one prompt per command
        if len(s.segs) != len(cmds) + 1:
            if "have not saved changes to the source" in s.out: bad("exit-dirty", "EXIT says that changes have not been saved although nothing was changed"); return
            res.unsure("%d prompts for %d commands" % (len(s.segs), len(cmds))); return
        first = {}
        for i, (x, tag) in enumerate(seq):
            if tag is None: continue
            o = s.seg(i + 1)
            if tag[0] == "source":
                t = sc.read("base%d.mm" % tag[1]); key = ("source",)
                if t is None: bad("no-source", "WRITE SOURCE wrote nothing: %s" % o); return
                v = t
            else: v = normal(o); key = tag
            if tag[0] == "source": res.ev(hash(v))
            else: res.ev((x, i)); res.count("again:" + again[tag[1]].kind if tag[0] == "again" else "probe")
            if key not in first: first[key] = (i, v)
            elif first[key][1] != v:
                a = first[key][1]; j = next((q for q in range(min(len(a), len(v))) if a[q] != v[q]), min(len(a), len(v)))
                bad("changed:" + (again[tag[1]].kind if tag[0] == "again" else tag[0]), "command %d (%s) gave something else than the first time (command %d)\nfirst: ...%s\nnow:   ...%s\ncommands between: %s" % (i + 1, x, first[key][0] + 1, a[max(0, j - 100):j + 200], v[max(0, j - 100):j + 200], [y for y, _ in seq[first[key][0]:i + 1]]))
                return
    res.count("commands", len(cmds))
    if res.sample is None: res.sample = {"commands": cmds[:12]}

PAGE = re.compile(r"(?m)^.*\b\d?\d-[A-Z][a-z]{2}-\d{4}.*$")
def pages(res, rng, ctx):
    """web pages and TeX written again after other commands are the same, apart from dates"""
    d = cmdgen.rich_db(rng); c = cmdgen.Commands(rng, d)
    files = {"main.mm": d["text"]}; files.update(cmdgen.PAGES); files.update({"a.txt": "b a\nq a z\n", "b.txt": "x\n", "other.mm": "$c a $.\n"})
    out = []; mode = rng.choice(["html", "alt_html"])
    l = rng.choice(d["labels"]); kind = rng.choice(["page", "page", "list", "recent", "tex", "brief", "mnemonics"])
    w, f = {"page": ("show statement %s /%s /no_versioning" % (l, mode), l + ".html"), "list": ("write theorem_list /%s /no_versioning" % mode, "mmtheorems1.html"),
            "recent": ("write recent_additions rec.html /%s" % mode, "rec.html"), "brief": ("show statement * /brief_%s /no_versioning" % mode, "mmdefinitions.html"),
            "mnemonics": ("show statement %s /mnemonics" % l, "mnemosyne.txt"), "tex": ("", "x.tex")}[kind]
    again = ["open tex x.tex", "show statement %s /tex" % l, "show proof %s /tex" % rng.choice(d["thms"]), "close tex"] if kind == "tex" else [w]
    seq = []; k = rng.randint(2, 4)
    for i in range(k):
        seq += [(x, None) for x in again] + [("\"cp %s ../keep%d\"" % (f, i), i)]
        if i < k - 1:
            for _ in range(rng.randint(1, 6)):
                m = rng.random()
                if m < .5: seq.append((c.show().text(), None))
                elif m < .7 and kind != "tex": seq.append((safe(c).text(), None))
                elif m < .85: seq.append((c.wrong(), None))
                else: seq += [(x, None) for x in c.pa()]
    with drive.Scratch() as sc:
        for n, t in files.items(): sc.write("w/" + n, t)
        cmds = ["read main.mm"] + [x for x, _ in seq]
        s = drive.run(ctx["bin"], cmds, sc.path("w"), end=("exit", "n", "exit /force"), env=ctx.get("env"))
        if not res.check_session(s, files): return
        got = [sc.read("keep%d" % i) for i in range(k)]
    if None in got: res.count("no-page:" + kind); return
    for i, g in enumerate(got):
        res.ev((kind, i, hash(g)), 1); res.count("page:" + kind)
        a, b = undate(PAGE.sub("", got[0])), undate(PAGE.sub("", g))
        if kind == "recent": a, b = [x.split("#START#")[-1] for x in (a, b)]
        if a != b:
            j = next((q for q in range(min(len(a), len(b))) if a[q] != b[q]), min(len(a), len(b)))
            res.bad("page:" + kind, "%s differs when written again\nfirst: ...%s\nnow: ...%s" % (f, a[max(0, j - 200):j + 200], b[max(0, j - 200):j + 200]), files, cmds); return

if __name__ == "__main__":
    c = harness.Check("C22", assumptions=["messages given when typesetting definitions are read for the first time, dates and times are left out of the comparison"])
    ctx = {"bin": harness.build("plain")}
    c.run("history", history, c.n(1500, 30000), ctx, "random histories of 10 to 80 commands that must not change the database; repeated probes (written source, verification, listings) and recurring display commands compared byte for byte; EXIT must not ask to save")
    c.run("pages", pages, c.n(1000, 20000), ctx, "HTML, TeX and list files written repeatedly with other commands between; equal apart from dates")
    c.run("san", history, c.n(80, 2000), {"bin": harness.build("asan"), "env": {"ASAN_OPTIONS": drive.BASE_ENV["ASAN_OPTIONS"]}}, "the histories under ASan and UBSan")
    c.finish(min_evals=2000)
