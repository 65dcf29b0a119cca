"""C27: no input makes the program read or write out of bounds.
Sessions of the sanitizer build (AddressSanitizer, UndefinedBehaviorSanitizer) on hostile databases, typesetting comments,
proofs, command lines, command files and text files.  The monitors are the sanitizers, the exit status, the program's own
consistency checks (BUG messages) and a beacon command at the end, which must still be answered."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, drive, cmdgen, mmgen, mmref, mutate, c25
from cmdgen import Cmd

JUNK = ["$(", "$)", "$[", "$]", "${", "$}", "$=", "$.", "$c", "$v", "$f", "$e", "$a", "$p", "$d", "$t", "$j", "$!", "$", "$[ main.mm $]", "$[ x.mm $]", "$[ other.mm $]", "( $)", "(", ")", "?", "A", "ZZZ", "UUUUUUUUUUUUUUUUUUUUUU", "YYYYYYYYYYYYT", "\x00", "\xff", "\x80\xe4",
        "\t", "\r", "\r\n", "\n", "\n\n\n", " ", "\x0c", "\x0b", "\x1a", "\x03", "''", "\"", "'", "/*", "*/", "htmldef", "as", ";", "+", "~", "`", "``", "[", "]", "_", "<", ">", "&", "&amp;", "<HTML>", "</HTML>", "<PRE>", "#*", "#*#*#*", "=-=-", "-.-.", "1", "0", "-1", "99999999999", "1:", ":", "=", "a=", "=a", "x:y=z", "==",
        "(New usage is discouraged.)", "(Contributed by A, 1-Jan-2000.)", "(Proof modification is discouraged.)", "@", "*", ",", "$( Begin $[ x.mm $] $)", "$( End $[ x.mm $] $)", "$( Skip $[ x.mm $] $)", "$c c $.", "$v v $.", "l $a |- x $.", "$( $t htmldef \"a\" as \"b\"; $)", "mathbox"]

def junk(r):
    k = r.random()
    if k < .8: return r.choice(JUNK)
    if k < .9: return r.choice(JUNK) * r.choice([2, 10, 40])
    if k < .95: return "".join(chr(r.randrange(256)) for _ in range(r.randint(1, 40)))
    c = r.choice("xZ(.~`\"_$ \n")
    return c * r.choice([79, 80, 250, 300, 1000, 3000] if c in "xZ. _" else [79, 80, 250])

def hurt(r, t, n=None):
    """byte and token level damage"""
    for _ in range(n or r.choice([1, 1, 1, 2, 3, 6])):
        L = len(t); p = r.randrange(L + 1); k = r.randrange(11)
        ws = [m.span() for m in re.finditer(r"\S+", t)] or [(0, 0)]
        a, b = r.choice(ws)
        if k == 0: t = t[:p] + junk(r) + t[p:]
        elif k == 1: t = t[:p] + t[p + r.choice([1, 1, 2, 10, 100]):]
        elif k == 2: q = min(L, p + r.choice([1, 5, 50, 400])); t = t[:q] + t[p:q] * r.choice([1, 1, 1, 8]) + t[q:]
        elif k == 3: t = t[:p] + chr(r.randrange(256)) + t[p + 1:]
        elif k == 4: t = t[:a] + t[b:]
        elif k == 5: t = t[:a] + junk(r) + t[b:]
        elif k == 6: t = t[:a] + junk(r) + " " + t[a:]
        elif k == 7: c, d = r.choice(ws); t = t[:a] + t[c:d] + t[b:]
        elif k == 8: t = t[:a] + t[a:b] + r.choice(["", " ", "$", "."]) + t[b:].lstrip() if r.random() < .5 else t[:b] + t[b + 1:]
        elif k == 9: t = t[:p] if r.random() < .5 else t[p:] if r.random() < .1 else t[:b]
        else:
            c, d = r.choice(ws)
            if b <= c: t = t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:]
    return t

def badproofs(r, d):
    """valid syntax, but wrong proofs: token and tree mutations"""
    text = d["text"]; db = d["db"]
    for s in [s for s in db.stmts[1:] if s.type == "p"]:
        if r.random() < .5: continue
        m = re.search(r"(?<=\s)%s\s+\$p\s.*?\$=(.*?)\$\." % re.escape(s.label), text, re.S)
        if not m: continue
        toks = m.group(1).split()
        if "$(" in toks: continue
        for _ in range(r.choice([1, 1, 2])): toks = mutate.mut_tokens(r, db, s, toks)[1]
        text = text[:m.start(1)] + " " + " ".join(toks) + " " + text[m.end(1):]
    return text

NUMS = ["0", "-1", "1", "2", "3", "9", "999", "99999", "2147483647", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "1e5", "0x10", "+2", "", "00", "1.5", "-0"]
ODD = ["", "*", "?", "$", "$*", "$?", "$$", "$1", "$0", "$9", "$999999", "~", "@1", "@9", "=", "==", "#1", "#99", "%", "*,*", ",", ",,", "~ ~", "a~b", "*~*", "~x", "x~", "nosuch", "ALL", "FIRST", "LAST", "1~2", "\x80", "\xff\xfe", "?w", "*" * 40, "$*" * 30, "a" * 300, "(", ")", "[", "]", "`", "'", "main.mm", ".", "..", "/", "nodir/x", "\x01", "$( $)", "|-", "wff", "$1 $2 $3", "|- $1", "|- ( $1 -> $2 )", "~1", "~2", "~3"]

def hurtcmd(r, d, x):
    """text of a structured command with hostile arguments"""
    ws = [list(w) for w in x.words]
    for _ in range(r.choice([0, 1, 1, 2])):
        i = r.randrange(len(ws)); c, t = ws[i]; k = r.random()
        if c in ("a", "f") and k < .75: ws[i][1] = r.choice(NUMS) if re.match(r"\d+$", t) and r.random() < .8 else r.choice(ODD) if r.random() < .7 else r.choice(d["labels"] + d["hyps"] + d["toks"])
        elif k < .85: ws.insert(i, list(r.choice(ws)))
        elif k < .92 and len(ws) > 1: del ws[i]
        elif k < .96: ws.append(["q", r.choice(["ALL", "FULL", "TEX", "HTML", "ALT_HTML", "ESSENTIAL", "DEPTH", "OVERRIDE", "NO_VERSIONING", "FORMAT", "REWRAP", "SPLIT", "EXTRACT", "LEMMON", "SIZE", "COMMENT", "RENUMBER", "START_COLUMN", "FROM_STEP", "OLD_COMPRESSION", "FAST", "BRIEF_HTML"])])
        else: ws[i][1] = ws[i][1] + r.choice(ODD)
    o = []
    for c, t in ws:
        t = t.replace("\n", " ").replace("\r", " ")
        o.append(("/" + t) if c in ("q", "q2") else t if c in "kfe" else cmdgen.arg(t) if not ('"' in t and "'" in t) else t)
    s = " ".join(o)
    # the operating system is not to be called, files stay in the directory
    return s

def line(r, d):
    """a raw command line"""
    t = cmdgen.Commands(r, d).show().text() if r.random() < .5 else " ".join(r.choice(["show", "sh", "st", "*", "/", "=", "prove", "set", "write", "verify", "assign", "let", "step", "1", "help", "tools", "exit", "'", '"', "$1", d["labels"][0], "search", "open", "log", "undo", "?", "!", "read", "main.mm", "improve", "all"]) for _ in range(r.randint(1, 9)))
    t = hurt(r, t).replace("\n", " ")
    return t

FORBID = re.compile(r"['\"]|\bsys|\bmore?\b|\bmor|\bcli|\bedit|\bexi|\bqui|\b[eq]\b|\bq\b|\.\.|(?:^|[\s'\"=])/|\bsu", re.I)
def harmless(t):
    """no operating system command, no file outside the directory"""
    w = t.replace("'", " ").replace('"', " ").split()
    if not w: return False
    a = w[0].lower()
    if a.startswith(("'", '"', "sy", "more", "mor", "mo", "clio", "ed", "ex", "q")) or a in ("m", "e", "c", "cl", "cli"): return False
    if ".." in t: return False
    if re.search(r"(?:^|\s)['\"]\s*/", t) : return False
    return True

def settings(r):
    return r.choice(["set width %s" % r.choice(["3", "4", "5", "8", "12", "20", "40", "79", "79", "79", "100", "9999", "99999", "0", "-1", "x"]), "set height %s" % r.choice(["2", "3", "5", "24", "1", "0", "-5"]), "set undo %s" % r.choice(["0", "1", "3", "200", "-1"]), "set search_limit %s" % r.choice(["0", "-1", "1", "20", "100", "x", "10000"]),
                     "set unification_timeout %s" % r.choice(["0", "1", "5", "100", "1000", "-1"]), "set empty_substitution on", "set jeremy_henty_filter off", "set contributor \"%s\"" % r.choice(["", "x", "A" * 200, "$)", "~ x", "\x80"]), "set echo on", "set memory_status on", "set memory_status off", "set discouragement off", "set scroll continuous"])

BEACON = ["beep"] * 6
END = ["", "q", "_exit_pa /force", "exit", "_exit_pa /force", "exit"] # closes questions, the Proof Assistant or TOOLS; at MM> exit ends the program

def good(out): return "No errors were found" in out
def judge(res, s, files, what, told=False):
    """crash, sanitizer report, internal bug, early end"""
    if s.bugcheck and not s.timeout and not s.san() and "?Error" in re.split(r"\?BUG CHECK|\*\*\* (?:PROGRAM )?BUG", s.out)[0]:
        res.count("internal checks after a reported error (out of scope)"); return False
    if s.rc in (25, -25) and not s.san(): res.count("sessions ended by the file size limit"); return False
    if not res.check_session(s, files, what): return False
    if not told and "\x07" not in s.out[-6000:]:
        res.bad("ended", "%s: the program ended without being told to (or stopped answering)\n%s" % (what, s.out[-1500:]), files, s.cmds); return False
    return True

def run(ctx, files, cmds, W=None, told=False):
    with drive.Scratch() as sc:
        for f, x in files.items(): sc.write(f, x)
        if ctx.get("links"): pass
        return drive.run(ctx["bin"], cmds + BEACON, sc.d, pre=["set scroll continuous"] + (["set width %d" % W] if W else []), timeout=25, end=["exit /force"] * 3)

PLAIN = ["verify proof *", "show labels * /all", "show statement *", "show statement * /comment", "show source *", "write source o.mm", "write source p.mm /split", "show memory", "show settings", "show proof * /unknown"]

BADPLAIN = ["show labels * /all", "show statement *", "show statement * /comment", "show memory", "show settings", "help", "show labels *"]

def database(res, rng, ctx):
    """damaged databases: reading, verifying and plain listings; everything when READ accepts"""
    d = cmdgen.rich_db(rng, tex=rng.random() < .5); c = cmdgen.Commands(rng, d)
    text = badproofs(rng, d) if rng.random() < .25 else d["text"]
    k = rng.random()
    if k < .06: text = "".join(rng.choice([junk(rng), " "]) for _ in range(rng.randint(0, 60)))
    elif k < .9: text = hurt(rng, text)
    files = {"main.mm": text, "other.mm": hurt(rng, d["text"]) if rng.random() < .2 else "$c a $.\n", "x.mm": rng.choice(["", "$( x $)", "$c b $.", "$[ main.mm $]", "$[ x.mm $]", "$( ", "$"])}; files.update(cmdgen.PAGES)
    with drive.Scratch() as sc:
        for f, x in files.items(): sc.write(f, x)
        s = drive.run(ctx["bin"], ["read main.mm"] + BEACON[:2], sc.d, timeout=25, end=["exit /force"] * 3)
    res.ev(hash(text)); res.count("databases")
    if not judge(res, s, files, "READ"): return
    ok = good(s.out); res.count("databases accepted", ok)
    W = rng.choice([None, None, 79, 40, 20])
    if not ok:
        cmds = ["read main.mm"] + rng.sample(BADPLAIN, rng.randint(1, 4)) + ["erase", "y", "read main.mm", "erase", "y", "read other.mm"]
    else:
        cmds = ["read main.mm"]
        for _ in range(rng.choice([3, 8])):
            k = rng.random()
            cmds += [rng.choice(PLAIN)] if k < .2 else [c.show().text()] if k < .6 else [c.write().text()] if k < .75 else c.pa() if k < .85 else [x.text() for x in c25.pa(rng, c)[:-1]] + ["_exit_pa /force"] if k < .95 else ["save proof * /%s" % rng.choice(["normal", "compressed", "packed", "explicit"])]
        cmds += ["show proof * /all"] if rng.random() < .3 else []
    s = run(ctx, files, [x for x in cmds if x != "submit nosuch.cmd"], W)
    res.ev(hash((text, tuple(cmds)))); res.count("commands", len(cmds))
    judge(res, s, files, "session")

def typeset(res, rng, ctx):
    """damaged typesetting comments, description markup and bibliography pages"""
    d = cmdgen.rich_db(rng, tex=True); c = cmdgen.Commands(rng, d); text = d["text"]
    # damage inside comments only
    for _ in range(rng.choice([1, 1, 2, 4])):
        m = rng.choice([m for m in re.finditer(r"\$\((.*?)\$\)", text, re.S)])
        if rng.random() < .6:
            t = [m2 for m2 in re.finditer(r"\$\(\s*\$t(.*?)\$\)", text, re.S)]
            if t: m = t[0]
        b = hurt(rng, m.group(1)[2:] if "$t" in m.group(1) else m.group(1))
        if rng.random() < .97: b = " " + re.sub(r"[$\x80-\xff\x00-\x08\x0e-\x1f\x7f]", "", b) + " "
        text = text[:m.start(1)] + (" $t\n" if "$t" in m.group(1) else "") + b + text[m.end(1):]
    files = {"main.mm": text, "other.mm": "$c a $.\n"}; files.update(cmdgen.PAGES)
    for n in list(cmdgen.PAGES):
        if rng.random() < .3: files[n] = hurt(rng, files[n])
    cmds = ["read main.mm"]
    for _ in range(rng.choice([2, 5])):
        k = rng.random()
        cmds.append(c.write().text() if k < .55 else "verify markup * %s" % rng.choice(["", "/file_skip", "/verbose", "/date_skip"]) if k < .75 else c25.other(rng, c)[0].text() if k < .85 else rng.choice(["show statement * /alt_html", "show statement * /html", "show statement * /mnemonics", "write theorem_list /alt_html /theorems_per_page 1", "show statement * /comment", "write source r.mm /rewrap", "write source r.mm /format", "search * a /comments"]))
    cmds = [x for x in cmds if not x.startswith(("submit", "more"))]
    with drive.Scratch() as sc:
        for f, x in files.items(): sc.write(f, x)
        s = drive.run(ctx["bin"], ["read main.mm"] + BEACON[:2], sc.d, timeout=25, end=["exit /force"] * 3)
    if not judge(res, s, files, "READ"): return
    if not good(s.out): res.count("typesetting databases refused"); return
    s = run(ctx, files, cmds, rng.choice([None, None, 79, 60, 30]))
    res.ev(hash((text, tuple(cmds)))); res.count("typesetting sessions"); res.count("commands", len(cmds))
    judge(res, s, files, "session")
    if res.sample is None: res.sample = {"commands": cmds}

def commands(res, rng, ctx):
    """hostile commands on good databases"""
    d = cmdgen.rich_db(rng, tex=rng.random() < .5); c = cmdgen.Commands(rng, d)
    text = badproofs(rng, d) if rng.random() < .3 else d["text"]
    files = {"main.mm": text, "t.cmd": hurt(rng, "show labels *\nshow statement *\nset width 40\nsubmit t.cmd\n") }; files.update(c25.STATIC)
    cmds = ["read main.mm"]
    for _ in range(rng.choice([4, 10, 20])):
        k = rng.random()
        if k < .3: g = [hurtcmd(rng, d, c.show())]
        elif k < .42: g = [hurtcmd(rng, d, c.write())]
        elif k < .6: g = [hurtcmd(rng, d, x) for x in c25.pa(rng, c)] + ["_exit_pa /force"]
        elif k < .68: g = [settings(rng)]
        elif k < .78: g = [hurtcmd(rng, d, x) for x in c25.other(rng, c)]
        elif k < .84: g = ["submit t.cmd"]
        elif k < .9: g = c.pa()
        else: g = [line(rng, d)]
        # answers for questions
        for x in g:
            cmds.append(x)
            if rng.random() < .1: cmds.append(rng.choice(["", "a", "n", "y", "1", "q", "s", "r", "0", "-1", "99999999999", "x" * 300]))
    cmds = [x for x in cmds if harmless(x)]
    if not all(harmless(x) for x in files["t.cmd"].split("\n") if x.strip()): files["t.cmd"] = "show labels *\n"
    # a command file that calls itself more than once takes exponential time
    files["t.cmd"] = re.sub(r"(?i)(sub[^\n]*t\.cmd.*?)sub\w*", r"\1show", files["t.cmd"], flags=re.S)
    while len(re.findall("(?i)sub", files["t.cmd"])) > 1:
        i = files["t.cmd"].lower().rindex("sub"); files["t.cmd"] = files["t.cmd"][:i] + files["t.cmd"][i + 3:]
    s = run(ctx, files, cmds)
    res.ev(hash((text, tuple(cmds)))); res.count("command sessions"); res.count("commands", len(cmds))
    judge(res, s, files, "session")
    if res.sample is None: res.sample = {"commands": cmds[:12]}

def textfile(r):
    return "\n".join("".join(r.choice([" ", "a", "b", "q", "x ", "\t", "(", ")", "$(", "$)", junk(r) if r.random() < .1 else "z"]) for _ in range(r.choice([0, 1, 5, 30, 90]))) for _ in range(r.choice([0, 1, 3, 10]))) + r.choice(["\n", "", "\n\n", " ", "\x00"])

def tools(res, rng, ctx):
    """hostile text files and TOOLS arguments, MARKUP, FILE SEARCH, SUBMIT"""
    d = ctx["small"]; c = cmdgen.Commands(rng, d)
    files = {"main.mm": d["text"], "other.mm": "$c a $.\n", "a.txt": textfile(rng), "b.txt": textfile(rng), "mm.txt": hurt(rng, "a ` ( ph -> ps ) ` ~ ax-1 <HTML> [Author] _x_\n"), "s.cmd": "\n".join(x for x in textfile(rng).split("\n") if harmless(x))}; files.update(cmdgen.PAGES)
    if rng.random() < .5: files["list.tmp"] = textfile(rng)
    cmds = ["read main.mm"] if rng.random() < .4 else []
    for _ in range(rng.choice([1, 2, 4])):
        if rng.random() < .7:
            cmds += [hurtcmd(rng, d, x) if x.words[0][1] != "TOOLS" else "tools" for x in c25.tools(rng, c)] + ["exit"] * (len(cmds) < 0)
        else:
            cmds += [hurtcmd(rng, d, x) for x in c25.other(rng, c)]
    cmds = [x for x in cmds if harmless(x) and not x.lower().startswith(("exit", "quit"))]
    cmds = [re.sub(r"\d{5,}", "9999", x) if re.search("INSERT|NUMBER", x) else x for x in cmds] # (files of gigabytes)
    s = run(ctx, files, cmds)
    res.ev(hash((files["a.txt"], tuple(cmds)))); res.count("text sessions"); res.count("commands", len(cmds))
    judge(res, s, files, "session")

if __name__ == "__main__":
    c = harness.Check("C27", assumptions=["databases with READ errors are only read, listed plainly and erased; internal checks after a reported proof error are only counted", "operating system commands are not exercised", "memory errors that AddressSanitizer cannot see (inside one allocation) only show by their effects"])
    ctx = {"bin": harness.build("asan"), "small": cmdgen.rich_db(random.Random(5), tex=True)}
    c.run("database", database, c.n(4000, 80000), ctx, "byte and token damage to generated databases; READ, VERIFY PROOF, plain listings, writing, ERASE; all commands when READ accepts")
    c.run("typeset", typeset, c.n(2000, 30000), ctx, "damage to $t comments, descriptions and pages; HTML, VERIFY MARKUP, /REWRAP")
    c.run("commands", commands, c.n(5000, 60000), ctx, "hostile arguments, raw lines, tiny screens, command files and answers on good databases with good and bad proofs")
    c.run("tools", tools, c.n(3000, 40000), ctx, "hostile text files and TOOLS, MARKUP, FILE SEARCH, SUBMIT commands")
    c.finish(min_evals=2000)
