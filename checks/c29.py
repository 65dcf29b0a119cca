"""C29: memory and open files are given back.
One session repeats the same work (reading databases, any commands, ERASE) many times; a shim below the C library's
interface counts the heap bytes, heap blocks and open files in use after every repetition.  Once the first repetitions
are over the level must stop rising: what rises at every repetition is lost memory (or a lost file)."""
import os, sys, re, random, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, drive, cmdgen, mmgen, c25, c27, c28

ROUNDS, TAIL = 14, 9
LEVEL = ["_exit_pa /force", "erase", "y", "read empty.mm", "erase", "submit mmv_probe"]  # back to MM>, nothing loaded

KEEP = ["_exit_pa /force", "submit mmv_probe"]  # back to MM>, the database stays
def measure(ctx, files, cmds, rounds, first=None):
    with drive.Scratch() as sc:
        files = dict(files); files["empty.mm"] = "$c x $.\n"
        copies = [(n, n[:-4] + "0.txt") for n in ("a.txt", "b.txt") if n in files]
        for n, m in copies: files[m] = files[n]
        for n, t in files.items(): sc.write(n, t)
        reset = ["tools"] + ["copy %s %s" % (m, n) for n, m in copies] + ["exit"]
        log = sc.path("mmv.log")
        one = (reset if any(x.lower() == "tools" for x in cmds) else []) + cmds + (KEEP if first else LEVEL)
        s = drive.run(ctx["bin"], (first or []) + one * rounds, sc.d, timeout=60, end=["exit /force"] * 3, retry=False, env={"LD_PRELOAD": ctx["shim"], "MSHIM_LOG": log})
        m = [tuple(map(int, l.split())) for l in (sc.read("mmv.log") or "").splitlines()]
    return s, m

WHAT = ["bytes of memory", "blocks of memory", "open files"]
def rising(m):
    """what rises at every one of the last repetitions"""
    t = m[-TAIL:]
    return [(WHAT[k], [x[k] for x in t]) for k in (0, 1, 2) if all(b[k] > a[k] for a, b in zip(t, t[1:]))]

def verdict(res, ctx, files, cmds, first=None):
    s, m = measure(ctx, files, cmds, ROUNDS, first)
    if s.timeout: res.unsure("timeout"); return
    if first and m and not m[-1][4]: res.unsure("the pool of free blocks cannot be emptied"); return
    if len(m) != ROUNDS: res.count("sessions that ended early"); return
    res.ev(hash(s.out)); res.count("sessions"); res.count("commands", len(cmds)); res.count("repetitions", ROUNDS); res.count("allocations watched", m[-1][3])
    res.count("sessions with a constant level from the third repetition on", len(set(x[:3] for x in m[3:])) == 1)
    r = rising(m)
    if r:
        s, m = measure(ctx, files, cmds, 3 * ROUNDS, first)  # a longer look before it is called lost
        if s.timeout or len(m) != 3 * ROUNDS: res.unsure("timeout"); return
        r = [x for x in r if x[0] in [y[0] for y in rising(m)]]
    if r:
        small = shrink(ctx, files, cmds, r[0][0], first)
        res.bad("grows:" + r[0][0], "%s in use after each repetition: %s\nenough: %s" % (r[0][0], r[0][1], small), files, (first or []) + cmds)
    if res.sample is None: res.sample = {"commands": cmds[:12], "bytes in use after each repetition": [x[0] for x in m]}

def shrink(ctx, files, cmds, what, first):
    n = 2; left = 60
    while len(cmds) > 1 and left > 0:
        k = max(1, len(cmds) // n); done = True
        for i in range(0, len(cmds), k):
            c = cmds[:i] + cmds[i + k:]; left -= 1
            if left <= 0: break
            if sum(x.lower() == 'tools' for x in c) != sum(x.lower() in ('exit', 'quit') for x in c): continue
            s, m = measure(ctx, files, c, ROUNDS, first)
            if len(m) == ROUNDS and any(x[0] == what for x in rising(m)): cmds = c; done = False; break
        if done:
            if k == 1: break
            n *= 2
    return cmds

def mixed(res, rng, ctx):
    files, cmds, faulty = c28.session(rng)
    if rng.random() < .5:
        k = rng.randrange(len(cmds)); cmds = cmds[:k] + ["read /x", "read nosuch.mm", "submit nosuch.cmd", "open log nosuch/x.log"][:rng.randint(1, 4)] + cmds[k:]
    verdict(res, ctx, files, cmds)

# the same commands over and over on one database that stays in memory
def kept(res, rng, ctx):
    d = cmdgen.rich_db(rng, tex=rng.random() < .7, complete=rng.random() < .8); c = cmdgen.Commands(rng, d)
    files = dict(cmdgen.PAGES); files.update(c25.STATIC); files["main.mm"] = c27.badproofs(rng, d) if rng.random() < .15 else d["text"]; cmds = []
    for _ in range(rng.choice([1, 3, 8])):
        m = rng.random()
        if m < .35: cmds.append(c.show().text())
        elif m < .5: cmds.append(c.write().text())
        elif m < .55: cmds.append(c.wrong())
        elif m < .65: cmds += c.pa()
        elif m < .75: cmds += [x.text() for x in c25.pa(rng, c)] + ["_exit_pa /force"]
        elif m < .8: cmds += [c27.hurtcmd(rng, d, x) for x in c25.pa(rng, c)] + ["_exit_pa /force"]
        elif m < .85: cmds.append(c27.hurtcmd(rng, d, rng.choice([c.show, c.write])()))
        elif m < .92: cmds.append("save proof %s /%s" % (c.pattern("thms"), rng.choice(["normal", "compressed", "packed", "explicit"])))
        elif m < .96: cmds += ["open tex x.tex", "show statement %s /tex" % c.label(), "show proof %s /tex" % c.label("thms"), "close tex"]
        else: cmds += ["verify proof *", "verify markup *", "open log l.log", c.show().text(), "close log"]
    cmds = [x for x in cmds if c27.harmless(x) and not x.lower().startswith(("exit", "quit", "submit", "read", "erase"))]
    if cmds: verdict(res, ctx, files, cmds, ["read main.mm"])

# a database that READ refuses, in many ways
def refused(res, rng, ctx):
    d = cmdgen.rich_db(rng, tex=True, complete=rng.random() < .8); c = cmdgen.Commands(rng, d); k = rng.random()
    text = c27.hurt(rng, d["text"])
    files = dict(cmdgen.PAGES); files["main.mm"] = text; cmds = ["read main.mm"] + rng.sample(c27.BADPLAIN, rng.randint(0, 3))
    if rng.random() < .4:
        inc = rng.choice(["$[ b.mm $]", "$[ nosuch.mm $]", "$[ b.mm", "$[ b.mm $] $[ b.mm $]", "$[ $]", "$[ main.mm $]"]); j = rng.randrange(len(text) + 1)
        files["main.mm"] = text[:j] + " " + inc + " " + text[j:]; files["b.mm"] = rng.choice(["", "$( x $)", "$[ c.mm $]", "$c q $.", "$( x", "$[ main.mm $]"]); files["c.mm"] = "$v r $."
    if rng.random() < .3: cmds += [c.show().text() for _ in range(2)]
    verdict(res, ctx, files, [x for x in cmds if c27.harmless(x)])

def build_shim():
    src = os.path.join(harness.VERIF, "native", "memshim.c")
    root = os.path.join(harness.VERIF, "build") if harness.REPO == "/repo" else os.path.join(harness.REPO, "vbuild")
    os.makedirs(root, exist_ok=True); out = os.path.join(root, "mshim.%d.so" % os.getpid()); dst = os.path.join(root, "mshim.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-fno-builtin", "-o", out, src, "-ldl"], check=True); os.rename(out, dst); return dst

if __name__ == "__main__":
    c = harness.Check("C29", assumptions=["lost memory shows as a level that rises at every repetition of the same commands (14 repetitions, confirmed by 42)", "GNU C library"])
    ctx = {"bin": harness.build("dyn"), "shim": build_shim()}
    c.run("mixed", mixed, c.n(2000, 40000), ctx, "a random session (valid, wrong and damaged databases, all modes, hostile commands), repeated 14 times in one process with ERASE in between; heap bytes, heap blocks and open files in use after each repetition")
    c.run("refused", refused, c.n(2000, 40000), ctx, "READ of damaged databases and inclusions, repeated in the same way")
    c.run("kept", kept, c.n(2000, 40000), ctx, "1 to 8 commands (inspection, writing, Proof Assistant sessions, SAVE PROOF), repeated in the same way on one database that stays in memory")
    c.finish(min_evals=500)
