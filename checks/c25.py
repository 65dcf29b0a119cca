"""C25: abbreviations never change what a command does.
Twin sessions over the same database: one is typed with complete keywords, the other with random unambiguous
abbreviations, letter cases, spacing and quoting, and with ambiguous or unknown keywords thrown in, which must be
reported (message, list of the candidates, marker under the word) and change nothing."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, drive, cmdgen, mmgen, c22
from cmdgen import Cmd, K, A, Q

STATIC = {"a.txt": "b a\nq a z\n", "b.txt": "x\n", "other.mm": "$c a $.\n", "mm.txt": "a ` x ` ~ y <HTML> [Author]\n", "s.cmd": "show labels *\nshow statement *\n"}
STATIC.update(cmdgen.PAGES)
E = ("e", "=")

def normal(t):
    for a, b in c22.VARY: t = a.sub(b, t)
    return t

def setting(r):
    return Cmd("set", *K(r.choice(["SET ECHO ON", "SET ECHO OFF", "SET DISCOURAGEMENT ON", "SET DISCOURAGEMENT OFF", "SET EMPTY_SUBSTITUTION ON", "SET EMPTY_SUBSTITUTION OFF", "SET JEREMY_HENTY_FILTER ON", "SET JEREMY_HENTY_FILTER OFF", "SHOW SETTINGS", "SET SCROLL CONTINUOUS"]))) if r.random() < .6 else \
        r.choice([lambda: Cmd("set", *K("SET WIDTH"), A(r.choice([9999, 79, 60]))), lambda: Cmd("set", *K("SET HEIGHT"), A(r.randint(5, 50))), lambda: Cmd("set", *K("SET UNDO"), A(r.choice([0, 2, 200]))), lambda: Cmd("set", *K("SET SEARCH_LIMIT"), A(r.choice([100, 25000]))), lambda: Cmd("set", *K("SET UNIFICATION_TIMEOUT"), A(r.choice([50, 100000]))),
                 lambda: Cmd("set", *K("SET CONTRIBUTOR"), A(r.choice(["A  B", "N.M.", "x/y", "it's", "\"q\" z", " lead", "a=b", "A B!", "ALL", "no_v"])))])()

HELP = ["LANGUAGE", "PROOF_ASSISTANT", "MM-PA", "BEEP", "EXIT", "QUIT", "READ", "ERASE", "OPEN LOG", "OPEN TEX", "CLOSE LOG", "CLOSE TEX", "SHOW MEMORY", "SHOW SETTINGS", "SHOW LABELS", "SHOW SOURCE", "SHOW STATEMENT", "SHOW PROOF", "SHOW NEW_PROOF", "SHOW USAGE", "SHOW TRACE_BACK", "SHOW ELAPSED_TIME", "SHOW DISCOURAGED", "SEARCH", "SET ECHO", "SET SCROLL", "SET WIDTH", "SET HEIGHT", "SET UNDO", "SET UNIFICATION_TIMEOUT", "SET DISCOURAGEMENT", "SET CONTRIBUTOR", "SET ROOT_DIRECTORY",
        "SET EMPTY_SUBSTITUTION", "SET SEARCH_LIMIT", "SET JEREMY_HENTY_FILTER", "VERIFY PROOF", "VERIFY MARKUP", "SUBMIT", "SYSTEM", "PROVE", "FILE SEARCH", "WRITE SOURCE", "WRITE THEOREM_LIST", "WRITE BIBLIOGRAPHY", "WRITE RECENT_ADDITIONS", "MARKUP", "ASSIGN", "REPLACE", "MATCH", "UNIFY", "LET", "INITIALIZE", "DELETE", "IMPROVE", "MINIMIZE_WITH", "EXPAND", "UNDO", "REDO", "SAVE PROOF", "SAVE NEW_PROOF", "DEMO", "INVOKE", "CLI", "EXPLORE", "TEX", "LATEX", "HTML", "COMMENTS", "BIBLIOGRAPHY", "MORE", "TOOLS", "MIDI"]

def other(r, c):
    k = r.randrange(9)
    if k == 0: return [Cmd("file", *K("FILE SEARCH"), A(r.choice(["a.txt", "mm.txt"])), A(r.choice(["a", "q a", "x"])), *c.some([("FROM_LINE", lambda: r.randint(1, 3)), ("TO_LINE", lambda: r.randint(1, 5))], .4))]
    if k == 1: return [Cmd("markup", *K("MARKUP"), A("mm.txt"), A("mm%d.html" % r.randint(0, 2)), *c.some(["HTML", "SYMBOLS", "LABELS", "NUMBER_AFTER_LABEL", "BIB_REFS", "UNDERSCORES", "CSS"], .4))]
    if k == 2: return [Cmd("submit", *K("SUBMIT"), A("s.cmd"), *c.some(["SILENT"], .5))]
    if k == 3: return [Cmd("save", *K("SAVE PROOF"), A(c.pattern("thms")), *c.some([r.choice(["NORMAL", "COMPRESSED", "PACKED", "EXPLICIT"])], .8))]
    if k == 4: return [Cmd("tex", *K("OPEN TEX"), A("x.tex"), *c.some(["NO_HEADER", "OLD_TEX"], .3)), Cmd("tex", *K("SHOW STATEMENT"), A(c.label()), Q(r.choice(["TEX", "OLD_TEX"]))), Cmd("tex", *K("SHOW PROOF"), A(c.label("thms")), Q("TEX")), Cmd("tex", *K("CLOSE TEX"))]
    if k == 5: return [Cmd("erase", *K("ERASE")), Cmd("read", *K("READ"), A("main.mm"), *c.some(["VERIFY"], .4))]
    if k == 6: return [Cmd("more", *K("MORE"), A("a.txt"))]
    return [Cmd("help", *K("HELP " + r.choice(HELP)))]

def F(s): return ("f", s)        # FIRST, LAST, ALL or a number
def pa(r, c):
    o = [Cmd("prove", *K("PROVE"), A(c.label("thms")), Q("OVERRIDE"))]
    step = lambda: F(str(r.randint(1, 9))) if r.random() < .5 else F(r.choice(["LAST", "FIRST"]))
    for _ in range(r.randint(1, 10)):
        k = r.randrange(17)
        if k < 3: x = Cmd("np", *K("SHOW NEW_PROOF"), *c.some(["ESSENTIAL", "ALL", "UNKNOWN", ("FROM_STEP", c.num), ("TO_STEP", c.num), ("DEPTH", c.num), "REVERSE", "LEMMON", "RENUMBER", "NOT_UNIFIED"], .15)) if r.random() < .7 else Cmd("np", *K("SHOW NEW_PROOF"), Q(r.choice(["NORMAL", "PACKED", "COMPRESSED", "EXPLICIT"])))
        elif k == 3: x = Cmd("assign", *K("ASSIGN"), step(), A(c.label() if r.random() < .8 else c.label("hyps")), *c.some(["NO_UNIFY", "OVERRIDE"], .6))
        elif k == 4: x = Cmd("replace", *K("REPLACE"), step(), A(c.label()), *c.some(["OVERRIDE"]))
        elif k == 5: x = Cmd("let", *K("LET STEP"), step(), E, A(" ".join(r.choice(c.d["forms"])[:1] and ["|-"] + r.choice(c.d["forms"]))))
        elif k == 6: x = Cmd("let", *K("LET VARIABLE"), A("$%d" % r.randint(1, 4)), E, A(" ".join(r.choice(c.d["forms"]))))
        elif k == 7: x = Cmd("unify", *K("UNIFY STEP"), A(r.randint(1, 9))) if r.random() < .5 else Cmd("unify", *K("UNIFY ALL"))
        elif k == 8: x = Cmd("improve", *K("IMPROVE"), F(r.choice(["ALL", "FIRST", "LAST", "3"])), *c.some([("DEPTH", lambda: r.randint(0, 1)), "NO_DISTINCT", r.choice(["1", "2", "3"])], .25))
        elif k == 9: x = Cmd("min", *K("MINIMIZE_WITH"), A(c.pattern()), *c.some(["VERBOSE", "MAY_GROW", ("EXCEPT", c.pattern), "OVERRIDE", "INCLUDE_MATHBOXES", ("ALLOW_NEW_AXIOMS", c.pattern), ("NO_NEW_AXIOMS_FROM", c.pattern), ("FORBID", c.pattern)], .2))
        elif k < 13: x = Cmd("delete", *r.choice([K("DELETE STEP") + [A(r.randint(1, 12))], K("DELETE ALL"), K("DELETE FLOATING_HYPOTHESES")]))
        elif k == 13: x = Cmd("init", *r.choice([K("INITIALIZE STEP") + [A(r.randint(1, 9))], K("INITIALIZE ALL"), K("INITIALIZE USER")]))
        elif k == 14: x = Cmd("expand", *K("EXPAND"), A(c.label()))
        elif k == 15: x = Cmd("undo", *K(r.choice(["UNDO", "REDO", "UNDO"])))
        else: x = r.choice([setting(r), c.show()])
        o.append(x)
    if r.random() < .3: o.append(Cmd("save", *K("SAVE NEW_PROOF"), Q(r.choice(["NORMAL", "PACKED", "COMPRESSED", "EXPLICIT"])), *c.some(["OVERRIDE"], .5)))
    o.append(Cmd("exitpa", *K(r.choice(["EXIT", "_EXIT_PA", "QUIT"])), Q("FORCE")))
    return o

def tools(r, c):
    o = [Cmd("tools", *K("TOOLS"))]
    for _ in range(r.randint(1, 5)):
        n = A(r.choice(["a.txt", "b.txt"])); s = lambda: A(r.choice(["a", "x", "", "a b", "/", "ALL", "q\"", "it's", "=", "  "])) 
        o.append(r.choice([lambda: Cmd("t", *K("ADD"), n, s(), s()), lambda: Cmd("t", *K("DELETE"), n, A("a"), A("")), lambda: Cmd("t", *K("SUBSTITUTE"), n, A("a"), s(), A(r.choice(["1", "ALL", "EACH"])), A("")), lambda: Cmd("t", *K("SWAP"), n, A(" ")), lambda: Cmd("t", *K("S"), n, A("a"), s(), A("1"), A("")), lambda: Cmd("t", *K("C"), n, A("c2.txt")), lambda: Cmd("t", *K("T"), n, A("2")), lambda: Cmd("t", *K("CLEAN"), n, A(r.choice(["B", "D,R", "TU"]))), lambda: Cmd("t", *K("INSERT"), n, A("zz"), A(r.randint(1, 5))),
                           lambda: Cmd("t", *K("BREAK"), n, A("( )")), lambda: Cmd("t", *K("BUILD"), n), lambda: Cmd("t", *K("MATCH"), n, s(), A(r.choice("YN"))), lambda: Cmd("t", *K("SORT"), n, A("")), lambda: Cmd("t", *K("UNDUPLICATE"), n), lambda: Cmd("t", *K("DUPLICATE"), n), lambda: Cmd("t", *K("UNIQUE"), n), lambda: Cmd("t", *K("REVERSE"), n), lambda: Cmd("t", *K("RIGHT"), n),
                           lambda: Cmd("t", *K("PARALLEL"), A("a.txt"), A("b.txt"), A("p.txt"), s()), lambda: Cmd("t", *K("NUMBER"), A("n.txt"), A(1), A(r.randint(1, 9)), A(2)), lambda: Cmd("t", *K("COUNT"), n, s()), lambda: Cmd("t", *K("COPY"), A("a.txt,b.txt"), A("c.txt")), lambda: Cmd("t", *K("TYPE"), n, A(r.choice(["3", "ALL"]))),
                           lambda: Cmd("t", *K("TAG"), n, A("<"), A(">"), A("a"), A(1), A("z"), A(1)), lambda: Cmd("t", *K("HELP " + r.choice(["ADD", "DELETE", "SUBSTITUTE", "SWAP", "CLEAN", "TYPE", "TAG", "SUBMIT", "SYSTEM", "CLI", "COPY", "RIGHT"]))), lambda: Cmd("t", *K("SUBMIT"), A("t.cmd"), *([("q2", "SILENT")] if r.random() < .4 else []))])())
    o.append(Cmd("exit", *K(r.choice(["EXIT", "QUIT"]))))
    return o

def cased(r, s):
    k = r.random()
    return s.lower() if k < .5 else s.upper() if k < .7 else s.capitalize() if k < .8 else "".join(r.choice([x.lower(), x.upper()]) for x in s)

def quoted(r, t, toolmode):
    need = t == "" or re.search(r"[\s\"'%s]" % ("" if toolmode else "/="), t) or t.startswith("!")
    if not need and r.random() < .7: return t, False
    qs = [q for q in "'\"" if q not in t]
    if not qs: return None, False
    q = r.choice(qs)
    return q + t + q, True

def full(cmd, toolmode):
    o = []
    for c, t in cmd.words:
        if c in "q": o.append("/ " + t)
        elif c == "q2": o.append("/ " + t)
        elif c in "kfe": o.append(t)
        else:
            x = t if not (t == "" or re.search(r"[\s\"'%s]" % ("" if toolmode else "/="), t) or t.startswith("!")) else '"%s"' % t if '"' not in t else "'%s'" % t
            o.append(x)
    return " ".join(o)

def matches(alts, p):
    p = p.upper()
    return [p] if p in alts else [a for a in alts if a.startswith(p)]

def alts_of(out):
    m = re.search(r"\?Expected (.*?)\.\s*$", " ".join(out.split()))
    if not m: return None
    return [x for x in re.split(r", or |, | or ", m.group(1))]

def render(r, cmd, alts, toolmode, bad=None):
    """abbreviated text; alts[i]: candidates for word i. bad=(i, word): use this for word i.  Returns text, offset and length of word i"""
    out = ""; where = None; prevq = False; n = len(cmd.words)
    for i, (c, t) in enumerate(cmd.words):
        tight = False
        if c in ("q", "q2"):
            if bad and bad[0] == i: w = bad[1]
            else:
                a = alts.get(i) or [t]; ok = [t[:n] for n in range(1, len(t) + 1) if matches(a, t[:n]) == [t]]
                w = cased(r, r.choice(ok) if r.random() < .85 else t)
            s = "/" if c == "q" and r.random() < .6 else "/ " if r.random() < .9 else "/\t "
            g = "" if c == "q" and r.random() < .4 and out else " "
            out += g + s; at = len(out); out += w
        elif c == "k":
            if bad and bad[0] == i: w = bad[1]
            else:
                a = alts.get(i) or [t]; ok = [t[:n] for n in range(1, len(t) + 1) if matches(a, t[:n]) == [t]]
                w = cased(r, r.choice(ok) if r.random() < .85 else t)
            if out: out += " " if r.random() < .9 else r.choice(["  ", "\t", "    "])
            elif r.random() < .05: out += " "
            at = len(out); out += w
        elif c == "f":
            w = cased(r, t[:r.randint(1, len(t))]) if t.isalpha() else t
            out += " " + w
        elif c == "e": out += r.choice([" ", ""]) + "=" + r.choice([" ", ""])
        else:
            w, q = quoted(r, t, toolmode)
            if w is None: return None
            if i and cmd.words[i - 1][0] == "e": pass
            elif q and r.random() < .1 and not out.endswith(("'", '"')): pass
            elif prevq and r.random() < .1: pass
            else: out += " " if r.random() < .9 else r.choice(["  ", "\t"])
            out += w; prevq = q
            if bad and bad[0] == i: where = None
            continue
        prevq = False
        if bad and bad[0] == i: where = (at, len(w))
    if r.random() < .05: out += r.choice([" ", "\t", "   "])
    return out, where

PR = {"m": "MM> ", "p": "MM-PA> ", "t": "TOOLS> "}

def twin(res, rng, ctx):
    d = cmdgen.rich_db(rng, tex=rng.random() < .6); c = cmdgen.Commands(rng, d)
    files = dict(STATIC); files["main.mm"] = d["text"]; files["t.cmd"] = "count b.txt x\ncopy a.txt d.txt\n"
    seq = []                      # (mode, Cmd)
    for _ in range(rng.choice([2, 5, 10])):
        k = rng.random()
        if k < .35: seq.append(("m", c.show()))
        elif k < .5: seq.append(("m", c.write()))
        elif k < .68:
            p = pa(rng, c); seq += [("m", p[0])] + [("p", x) for x in p[1:]]
        elif k < .8:
            p = tools(rng, c); seq += [("m", p[0])] + [("t", x) for x in p[1:]]
        elif k < .88: seq.append(("m", setting(rng)))
        else: seq += [("m", x) for x in other(rng, c)]
    seq = [(m, x) for m, x in seq if x is not None]
    if any(x.kind == "save" for m, x in seq): seq = [(m, x) for m, x in seq if x.kind not in ("erase", "read")]      # ERASE would ask
    seq = [(m, x) for m, x in seq if not any("'" in t and '"' in t for cl, t in x.words)]
    # what the program offers at each keyword position (an impossible word is answered with the list)
    probes = []; key = {}
    def probe(m, x):
        for i, (cl, t) in enumerate(x.words):
            if cl not in ("k", "q", "q2"): continue
            pre = [w for w in x.words[:i]]
            pre = [w for w in pre]
            txt = (full(Cmd("", *pre), m == "t") + (" / " if cl != "k" else " ") + "zzzzz").strip()
            probes.append((m, txt)); key[(id(x), i)] = (m, txt)
    for m, x in seq: probe(m, x)
    uniq = list(dict.fromkeys(probes))
    lines = ["READ main.mm"] + [t for m, t in uniq if m == "m"] + ["PROVE %s / OVERRIDE" % d["thms"][0]] + [t for m, t in uniq if m == "p"] + ["_EXIT_PA / FORCE", "TOOLS"] + [t for m, t in uniq if m == "t"] + ["EXIT"]
    with drive.Scratch() as sc:
        for n, t in files.items(): sc.write(n, t)
        s = drive.run(ctx["bin"], lines, sc.d, timeout=30, pre=["SET SCROLL CONTINUOUS", "SET WIDTH 9999"], end=["EXIT / FORCE"])
        if not res.check_session(s, files): return
        if len(s.segs) != len(lines) + 1: res.unsure("probe session out of step"); return
        where = {}
        i = 1
        for m in "mpt":
            for mm, t in uniq:
                if mm == m: where[(m, t)] = s.segs[i][1]; i += 1
            i += {"m": 1, "p": 2, "t": 0}[m]
    lists = {k: alts_of(v) for k, v in where.items()}
    ok = []
    for m, x in seq:
        al = {}
        for i, (cl, t) in enumerate(x.words):
            if cl in ("k", "q", "q2"):
                a = lists[key[(id(x), i)]]
                if a is None:
                    # e.g. OPEN LOG while open; the list could not be seen
                    a = [t]
                elif t not in a: res.bad("not-offered", "%s is not among %s (%r)" % (t, a, key[(id(x), i)][1]), files, lines); return
                al[i] = a
        ok.append((m, x, al))
    A_ = []; B = []; expect = []
    for m, x, al in ok:
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2]) if x.kind != "read" else 0):
            # an ambiguous or unknown word in some command of this mode
            y, bl = rng.choice([(y, bl) for mm, y, bl in ok if mm == m])
            if any(cl == "a" and t in ("x.tex",) for cl, t in y.words) or y.kind in ("erase", "read", "w-source", "w-extract", "markup", "submit"): continue
            i = rng.choice(sorted(bl)); a = bl[i]
            if len(a) < 2 or i and y.kind in ("w-bib", "w-recent"): continue
            if rng.random() < .6:
                p = rng.choice(a); p = p[:rng.randint(1, max(1, len(p) - 1))]
                if len(matches(a, p)) != 1: w = cased(rng, p)
                else: w = cased(rng, p) + rng.choice("qxz9")
            else: w = rng.choice(["zzz", "qqq1", "x-y", cased(rng, rng.choice(a)) + "x", "$", "nothing!"])
            mt = matches(a, w)
            if len(mt) == 1 or w == "nothing!": continue
            rr = render(rng, y, bl, m == "t", (i, w))
            if rr is None or rr[1] is None: continue
            txt, (at, ln) = rr
            pt = PR[m] + txt
            mark = "".join("\t" if ch == "\t" else " " for ch in pt[:len(PR[m]) + at]) + "^" * ln
            if not mt: msg = "?Expected %s." % (a[0] if len(a) == 1 else " or ".join(a) if len(a) == 2 else ", ".join(a[:-1]) + ", or " + a[-1])
            else: msg = "?Ambiguous keyword - please specify %s." % (" or ".join(mt) if len(mt) == 2 else ", ".join(mt[:-1]) + ", or " + mt[-1])
            B.append(txt); expect.append((mark, msg, y.words[i], mt))
        t = full(x, m == "t"); rr = render(rng, x, al, m == "t")
        A_.append(t); B.append(rr[0] if rr else t); expect.append(None)
    runs = []
    for cmds in (A_, B):
        with drive.Scratch() as sc:
            for n, t in files.items(): sc.write(n, t)
            s = drive.run(ctx["bin"], ["READ main.mm"] + cmds, sc.d, timeout=40, pre=["SET SCROLL CONTINUOUS", "SET WIDTH 9999"], end=["EXIT / FORCE"])
            if not res.check_session(s, files): return
            runs.append((s, {n: sc.read(n) for n in sc.ls()}))
    a = merge(runs[0][0].segs[1:]); b = merge(runs[1][0].segs[1:])
    # the number of segments: questions do not appear (all arguments are given)
    i = 0; j = 0; abb = 0
    sa, sb = runs[0][0], runs[1][0]
    bl = [(e, t) for e, t in zip(expect, B)]
    ia = 0
    def bad(k, t): res.bad(k, t, files, sb.cmds)
    # walk both
    A2 = list(A_); pos = 0
    for e, t in bl:
        if e == "skip": ia += 1; continue             # answer of ERASE: printed within its segment
        if j >= len(b): bad("ended", "the abbreviated session ended at %r" % t); return
        o = b[j]; j += 1
        if e:
            mark, msg, wd, mt = e
            want = mark + "\n" + msg
            got = o[1].rstrip("\n")
            res.ev((wd, msg)); res.count("unknown words" if not mt else "ambiguous words")
            fits = len(mark) < 58  # a longer line may be folded after SET WIDTH
            if "".join(got.split()) != "".join(want.split()) or fits and (" ".join(got.split()) != " ".join(want.split()) or got.split("\n")[0] != mark):
                bad("bad-word", "%r (the word %r should be %s) is answered with %r, expected %r" % (t, wd, "unknown" if not mt else "ambiguous", o[1][:600], want)); return
            continue
        if pos >= len(a): bad("ended", "the full session ended before %r" % A2[ia]); return
        q = a[pos]; pos += 1
        x, y = normal(q[1]), normal(o[1]); res.count("commands"); res.ev((A2[ia], t)); abb += t.lower() != A2[ia].lower()
        if re.search(r"\?(Expected|Ambiguous|Too many)", q[1]) and not re.match(r"(submit|help)", A2[ia], re.I): bad("full-refused", "the complete command %r is answered with %r" % (A2[ia], q[1][:400])); return
        if "?" in x: x, y = recaret(x), recaret(y)
        if x != y or q[0] != o[0]:
            z = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
            bad("differs:" + " ".join(A2[ia].split()[:2]), "%r prints\n...%s<<HERE>>%s\nbut %r prints\n...%s<<HERE>>%s" % (A2[ia], x[max(0, z - 200):z], x[z:z + 300], t, y[max(0, z - 200):z], y[z:z + 300])); return
        ia += 1
    res.count("abbreviated", abb)
    fa, fb = runs[0][1], runs[1][1]
    for n in sorted(set(fa) | set(fb)):
        u, v = c22.undate(c22.PAGE.sub("", fa.get(n) or "(no file)")), c22.undate(c22.PAGE.sub("", fb.get(n) or "(no file)")); res.count("files compared")
        if u != v:
            z = next((k for k in range(min(len(u), len(v))) if u[k] != v[k]), min(len(u), len(v)))
            bad("file-differs", "file %s: complete commands ...%s<<HERE>>%s abbreviated ...%s" % (n, u[max(0, z - 100):z], u[z:z + 200], v[z:z + 200])); return
    if res.sample is None: res.sample = {"full": A_[:6], "abbreviated": B[:6]}

def recaret(t):
    """error markers point at the words as typed"""
    return re.sub(r"(?m)^[ \t]*\^+$", "^", t)

def merge(segs):
    """the commands of a command file belong to the SUBMIT that runs them"""
    out = []; depth = 0
    for p, o in segs:
        if depth: out[-1] = (out[-1][0], out[-1][1] + p + " " + o)
        else: out.append((p, o))
        depth += o.count("Taking command lines from file") - o.count("[End of command file")
    return out

if __name__ == "__main__":
    c = harness.Check("C25", assumptions=["the candidates at a keyword position are those the program itself lists when an impossible word is typed there; every keyword of the commands used must be among them"])
    ctx = {"bin": harness.build("plain")}
    c.run("twin", twin, c.n(2500, 60000), ctx, "sessions typed in full and with random unambiguous abbreviations, letter case, spacing and quoting, with ambiguous and unknown words in between; every output and file compared")
    c.run("san", twin, c.n(80, 2000), {"bin": harness.build("asan")}, "the same under ASan and UBSan")
    c.finish(min_evals=2000)
