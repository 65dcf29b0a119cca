"""C28: results do not depend on uninitialised memory or on the environment.
The same session is run in two processes that differ in the fill of fresh and freed heap memory, the fill of automatic
variables, the heap and stack layout, the locale, the environment and the working directory: all output and all files
must be the same, dates and times apart.  A second build with MemorySanitizer reports every branch on, and every output
of, an uninitialised value."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, drive, cmdgen, mmgen, scopegen, c22, c23, c25, c27

def session(rng):
    """files, command lines, the files written, whether a database in the session has errors"""
    files = dict(cmdgen.PAGES); files.update(c25.STATIC)
    faulty = False; cmds = []
    for i in range(rng.choice([1, 1, 1, 2])):
        d = cmdgen.rich_db(rng, tex=rng.random() < .7, complete=rng.random() < .8); c = cmdgen.Commands(rng, d); t = d["text"]; k = rng.random(); bad = False
        if k < .15: t = c27.badproofs(rng, d)
        elif k < .35: t = c27.hurt(rng, t); bad = True
        elif k < .4: t = c23.broken(rng, t); bad = True
        n = "main.mm" if i == 0 else "d%d.mm" % i
        files[n] = t
        if rng.random() < .25: cmds += [x for x in ["set undo %d" % rng.choice([0, 2, 50]), "set unification_timeout %d" % rng.choice([1, 10, 1000]), "set search_limit %d" % rng.choice([1, 50, 10000]), "set width %d" % rng.choice([30, 60, 79, 120])] if rng.random() < .4]
        cmds.append("read %s%s" % (n, " /verify" if rng.random() < .2 else ""))
        if bad:
            faulty = True; cmds += rng.sample(c27.BADPLAIN, rng.randint(1, 4))
        else:
            for _ in range(rng.choice([4, 10, 20])):
                m = rng.random()
                if m < .3: cmds.append(c.show().text())
                elif m < .45: cmds.append(c.write().text())
                elif m < .5: cmds.append(c.wrong())
                elif m < .6: cmds += c.pa()
                elif m < .7: cmds += [x.text() for x in c25.pa(rng, c)] + ["_exit_pa /force"]
                elif m < .75: cmds += [c27.hurtcmd(rng, d, x) for x in c25.pa(rng, c)] + ["_exit_pa /force"]
                elif m < .8: cmds.append(c27.hurtcmd(rng, d, rng.choice([c.show, c.write])()))
                elif m < .85: cmds += [x.text() + "\0" for x in c25.tools(rng, c)]
                elif m < .9: cmds += [x.text() for x in c25.other(rng, c)]
                elif m < .94: cmds.append("save proof %s /%s" % (c.pattern("thms"), rng.choice(["normal", "compressed", "packed", "explicit"])))
                elif m < .97: cmds += ["open tex x.tex", "show statement %s /tex" % c.label(), "show proof %s /tex" % c.label("thms"), "close tex"]
                else: cmds += ["open log l%d.log" % rng.randint(0, 9), c.show().text(), "close log"]
        cmds += ["erase", "y"]
    cmds = [x.strip("\0") for x in cmds if "\0" in x or c27.harmless(x) and not x.lower().startswith(("exit", "quit", "submit"))]
    return files, cmds, faulty

TIME = [(re.compile(r"(?i)(elapsed|total)? ?time[^\n]*?[\d.]+ ?s(ec)?[^\n]*"), "RUNTIME")]
def same(t):
    t = re.sub(r"\b\d?\d-[A-Z][a-z]{2}-\d{2,4}\b", "DATE", t); t = re.sub(r"\b\d?\d:\d\d(:\d\d)?( [AP]M)?", "TIME", t)
    return re.sub(r"[\d.]+ (s|sec|seconds)\b", "RUNTIME", t)

# heap fill, layout and environment of one process
def world(rng, w):
    e = {"MALLOC_PERTURB_": str([0, 165][w] if rng.random() < .5 else rng.randint(1, 255))}
    if w:
        if rng.random() < .7: e["LC_ALL"] = "C.utf8"; e["LANG"] = "C.utf8"
        if rng.random() < .7: e["FILLER"] = "x" * rng.choice([1, 100, 5000, 100000])
        if rng.random() < .5: e["GLIBC_TUNABLES"] = rng.choice(["glibc.malloc.tcache_count=0", "glibc.malloc.mmap_threshold=4096", "glibc.malloc.top_pad=1000000", "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0", "glibc.malloc.arena_max=1"])
        if rng.random() < .5: e["TERM"] = "dumb"; e["COLUMNS"] = "20"; e["LINES"] = "5"
        if rng.random() < .5: e["HOME"] = "/"; e["TMPDIR"] = "/nonexistent"
    return e

def outputs(ctx, files, cmds, w, env, binary):
    with drive.Scratch() as sc:
        sub = ["", "a/rather-long-directory-name/with spaces/b"][w]
        for n, t in files.items(): sc.write(os.path.join(sub, n), t)
        s = drive.run(binary, cmds + c27.BEACON, sc.path(sub), end=["exit /force"] * 3, timeout=25, env=env)
        base = sc.path(sub); out = {}
        for n in sc.ls():
            r = os.path.relpath(os.path.join(sc.d, n), base); t = sc.read(n)
            if files.get(r) != t: out[re.sub(r"^zz.{4,7}$", "zz-temporary", r)] = t
    return s, out

def twin(res, rng, ctx):
    files, cmds, faulty = session(rng); s = []
    for w in (0, 1): s.append(outputs(ctx, files, cmds, w, world(rng, w), ctx["bins"][w]))
    (a, fa), (b, fb) = s
    if a.timeout or b.timeout: res.unsure("timeout"); return
    def bad(k, t): res.bad(k, t, files, cmds)
    x, y = same(a.out), same(b.out)
    res.ev(hash(x)); res.count("sessions"); res.count("commands", len(cmds)); res.count("bytes of output compared", len(x)); res.count("files compared", len(fa))
    if a.rc != b.rc: bad("exit", "exit status %s in one run and %s in another" % (a.rc, b.rc)); return
    if x != y:
        j = next((q for q in range(min(len(x), len(y))) if x[q] != y[q]), min(len(x), len(y)))
        bad("output", "two runs of the same session differ after\n%s\none: ...%r\nother: ...%r" % (x[max(0, j - 600):j], x[j:j + 200], y[j:j + 200])); return
    for n in sorted(set(fa) | set(fb)):
        u, v = same(fa.get(n) or "(none)"), same(fb.get(n) or "(none)")
        if u != v:
            j = next((q for q in range(min(len(u), len(v))) if u[q] != v[q]), min(len(u), len(v)))
            bad("file", "two runs of the same session write %s differently after\n%s\none: ...%r\nother: ...%r" % (n, u[max(0, j - 300):j], u[j:j + 200], v[j:j + 200])); return
    if res.sample is None: res.sample = {"commands": cmds[:12]}

def msan(res, rng, ctx):
    files, cmds, faulty = session(rng)
    s, f = outputs(ctx, files, cmds, 0, {}, ctx["bin"])
    res.ev(hash(s.out)); res.count("sessions under MemorySanitizer"); res.count("commands under MemorySanitizer", len(cmds))
    if s.timeout: res.unsure("timeout"); return
    if s.rc == 0: res.count("prompts answered under MemorySanitizer", len(s.segs))
    elif not s.bugcheck: res.count("exit status %s under MemorySanitizer" % s.rc)
    if s.san():
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/", s.err)
        res.bad("msan:" + "/".join(fr[:3]), "use of an uninitialised value\n%s\n%s" % (s.err[:3000], s.out[-1000:]), files, cmds)

if __name__ == "__main__":
    c = harness.Check("C28", assumptions=["dates, clock times and run times are left out of the comparison", "one C library and compiler; MemorySanitizer reports uninitialised values that reach a branch, an address or the output"])
    c.run("twin", twin, c.n(3000, 60000), {"bins": [harness.build("zero"), harness.build("pat")]}, "random sessions (valid, wrong and damaged databases, all modes, hostile commands) run twice with different heap and stack fill, layout, locale, environment and directory; output and files compared")
    c.run("msan", msan, c.n(3000,20000), {"bin": harness.build("msan")}, "the same sessions under MemorySanitizer")
    c.finish(min_evals=2000)
