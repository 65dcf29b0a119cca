#!/usr/bin/env python3
"""C16: label patterns and SEARCH patterns select exactly what HELP SEARCH defines."""
from verify_common import *
import random, scopegen, c10

class Sel:
    """HELP SEARCH: the label pattern language"""
    def __init__(self, db):
        self.db = db; self.last = None; self.changed = set()
        self.A = db.asserts(); self.web = {s.label: i + 1 for i, s in enumerate(self.A)}
        self.ass = {s.label: s.num for s in self.A}
    def one(self, s, p):
        l = s.label
        if "~" in p:
            a, _, b = p.partition("~")
            i = 1 if a == "" else self.ass.get(a); j = len(self.db.stmts) if b == "" else self.ass.get(b)
            return i is not None and j is not None and l in self.ass and i <= s.num <= j
        if p.startswith("#"): return p[1:].isdigit() and int(p[1:]) == s.num
        if p.startswith("@"): return p[1:].isdigit() and self.web.get(l) == int(p[1:])
        if p == "=": return l == self.last
        if p == "%": return l in self.changed
        return wild1(p, l)
    def match(self, s, pat): return bool(s.label) and any(self.one(s, p) for p in pat.split(","))
    def sel(self, pat, types): return [s for s in self.db.stmts[1:] if s.label and s.type in types and self.match(s, pat)]

def wild1(p, l):
    """plain dynamic programming, * any string, ? any character"""
    cur = {0}
    for c in p:
        if c == "*": cur = set(range(min(cur), len(l) + 1)) if cur else cur
        else: cur = set(i + 1 for i in cur if i < len(l) and (c == "?" or l[i] == c))
        if not cur: return False
    return len(l) in cur

def label_pat(rng, db, S, many=True):
    L = [s for s in db.stmts[1:] if s.label]; A = db.asserts()
    if many and rng.random() < .25: return ",".join(label_pat(rng, db, S, False) for _ in range(rng.randint(2, 4)))
    l = rng.choice(A if rng.random() < .8 else L).label; k = rng.random()
    if k < .08: return "*"
    if k < .16: return l
    if k < .5:
        out = []
        i = 0
        while i < len(l):
            r = rng.random()
            if r < .55: out.append(l[i]); i += 1
            elif r < .7: out.append("?"); i += 1
            elif r < .9: out.append("*"); i += rng.randint(0, 3)
            elif r < .93: out.append("?")
            elif r < .95: i += 1
            elif r < .97: out += ["*", "*"]
            else: out.append(rng.choice("abTh1.-_")); i += 1
        return "".join(out) or "*"
    if k < .58: c = rng.choice(l); return "*" + c + "*" if rng.random() < .5 else "*" + l[-rng.randint(1, len(l)):]
    if k < .75:
        a = rng.choice([rng.choice(A).label, rng.choice(A).label, "", rng.choice(L).label, "nosuch", l[:1] + "*"] if rng.random() < .4 else [rng.choice(A).label])
        b = rng.choice([rng.choice(A).label, rng.choice(A).label, "", rng.choice(L).label, "nosuch"] if rng.random() < .4 else [rng.choice(A).label])
        if a in S.ass and b in S.ass and S.ass[a] > S.ass[b] and rng.random() < .8: a, b = b, a
        return a + "~" + b
    if k < .82: return "#%d" % rng.choice([rng.choice(L).num, rng.choice(A).num, rng.randint(0, len(db.stmts) + 3), 10 ** 9])
    if k < .89: return "@%d" % rng.choice([rng.randint(1, len(A)), rng.randint(0, len(A) + 3)])
    if k < .95: return "%"
    return "="

ANY = object(); ONE = object()
def match_tokens(pt, toks, zero):
    """pt: ANY or lists of characters / ONE; does some run of tokens match?  zero: ONE may match no character"""
    def tok(p, t):
        cur = {0}
        for c in p:
            n = set()
            for i in cur:
                if c is ONE:
                    if zero: n.add(i)
                    if i < len(t): n.add(i + 1)
                elif i < len(t) and t[i] == c: n.add(i + 1)
            cur = n
            if not cur: return False
        return len(t) in cur
    cur = set(range(len(toks) + 1))
    for p in pt:
        if p is ANY:
            if cur: cur = set(range(min(cur), len(toks) + 1))
        else: cur = set(i + 1 for i in cur if i < len(toks) and tok(p, toks[i]))
    return bool(cur)

def char_model(pt, toks):
    """every $? stands for one character of the formula written with two blanks between symbols"""
    s = " " + "  ".join("\2" if p is ANY else "".join("\3" if c is ONE else c for c in p) for p in pt) + " "
    while " \2 " in s: s = s.replace(" \2 ", "\4", 1)
    r = "".join("(?:.*)" if c in "\2\4" else "." if c == "\3" else re.escape(c) for c in s)
    return re.search(r, " " + "  ".join(toks) + " ", re.S) is not None

def sym_pat(rng, seqs):
    """a pattern made from some formula: list of tokens and the text to type"""
    t = list(rng.choice(seqs))
    t = [x for x in t if "?" not in x]
    i = rng.randrange(len(t) + 1); j = rng.randint(i, min(len(t), i + rng.choice([1, 2, 4, 8, 20]))); t = t[i:j]
    pt = []; brief = rng.random() < .4; ones = rng.random() < .4
    for x in t:
        r = rng.random()
        if r < .12: pt.append(ANY); continue
        if r < .17: pt += [ANY, list(x)]; continue
        if r < .20: continue
        x = list(x)
        if ones and rng.random() < .6:
            x = [ONE if rng.random() < .6 else c for c in x]
            if rng.random() < .2: x.insert(rng.randint(0, len(x)), ONE)
            if rng.random() < .2 and len(x) > 1: x.pop(rng.randrange(len(x)))
        elif rng.random() < .05: x[rng.randrange(len(x))] = rng.choice("abcx()")
        pt.append(x)
    if rng.random() < .15: pt.insert(0, ANY)
    if rng.random() < .15: pt.append(ANY)
    if ones and len(pt) > 1 and rng.random() < .1:
        i = rng.randrange(len(pt) - 1)
        if pt[i] is not ANY and pt[i + 1] is not ANY: pt[i:i + 2] = [pt[i] + [ONE] * rng.choice([1, 2, 2, 3]) + pt[i + 1]]
    if not pt: pt = [ANY]
    def tx(p): return ("$" if brief and rng.random() < .7 else "$*") if p is ANY else "".join(("?" if brief else "$?") if c is ONE else c for c in p)
    sep = lambda: rng.choice([" "] * 6 + ["  ", "   "])
    txt = "".join((sep() if i else "") + tx(p) for i, p in enumerate(pt))
    if rng.random() < .1: txt = " " + txt + " "
    return pt, txt

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        if rng.random() < .3: text = scopegen.make(rng, comments=rng.random() < .4, bad=False); pr = {}
        else: text, g, pr = mmgen.make_db(rng, None, comments=rng.random() < .4, desc=True, nth=rng.randint(2, 15))
        if rng.random() < .3:      # descriptions that begin in the first column
            text = re.sub(r"(?<=\$\( )[^$]*(?=\$\))", lambda m: re.sub(r"(?<=\w)[ \t]+(?=\w)", lambda n: rng.choice([" ", " ", " ", "\n", "\n   ", "  "]), m.group(0)), text)
        bad = set(); repl = {}
        try: db = mmref.parse(text)
        except mmref.MMError: return
        for s in db.stmts[1:]:
            if s.type == "p" and rng.random() < .3: repl[s.label] = "?" if rng.random() < .5 else rng.choice(["nosuch", "$( x $) nosuch ?"])
        text = subst_proofs(text, repl); db = mmref.parse(text)
        bad = set(l for l in repl if "nosuch" in repl[l])
        S = Sel(db); A = db.asserts(); L = [s for s in db.stmts[1:] if s.label]; P = [s.label for s in A if s.type == "p"]
        if not A: return
        sc.write("a.mm", text)
        cmds = ["read a.mm"]; todo = []
        def do(c, f=None):
            cmds.append(c)
            if f: todo.append((len(cmds) - 1, f, S.last, set(S.changed)))
        seqs = [s.math for s in L]
        for _ in range(rng.randint(3, 14)):
            k = rng.random(); pat = label_pat(rng, db, S); raw = pat
            if "=" in pat and pat != "=": pat = '"%s"' % pat
            good = [l for l in P if l not in bad and l not in repl]
            if k < .08 and good:
                l = rng.choice(good); cmds.append("save proof %s/%s" % (l, rng.choice(["compressed", "normal", "packed"]))); S.changed.add(l)
            elif k < .14 and P and not bad:
                l = rng.choice(P); cmds += ["prove " + l, "exit/force"]; S.last = l
            elif k < .45:
                al = rng.random() < .4; w = "ap" + ("ef" if al else "")
                do("show labels %s%s%s" % (pat, " /all" if al else "", " /linear" if rng.random() < .3 else ""), ("labels", [s for s in S.sel(raw, w)]))
            elif k < .8:
                al = rng.random() < .3; jo = rng.random() < .3
                if rng.random() < .5: raw = pat = "*"
                pt, txt = sym_pat(rng, seqs); q = '"' if '"' not in txt else "'"
                if q in txt: continue
                do("search %s %s%s%s%s%s" % (pat, q, txt, q, " /all" if al else "", " /join" if jo else ""), ("search", S.sel(raw, "ap" + ("ef" if al else "")), pt, jo))
            elif k < .9:
                coms = [" ".join(s.lcomment.split()) for s in A if s.lcomment and s.lcomment.split()]
                if not coms: continue
                c = rng.choice(coms); i = rng.randrange(len(c)); c = c[i:i + rng.choice([3, 6, 15, 40])].strip()
                if rng.random() < .3: c = c.swapcase()
                if rng.random() < .1: c = c[:-1] + "x"
                if not c or ('"' in c and "'" in c): continue
                q = '"' if '"' not in c else "'"
                do("search %s %s%s%s /comments" % (pat, q, c, q), ("comments", S.sel(raw, "ap"), c))
            elif k < .94 and P:
                do("verify proof %s" % pat, ("verify", [s.label for s in S.sel(raw, "p")]))
            elif k < .955 and P: do("show trace_back %s" % pat, ("plist", [x.label for x in S.sel(raw, "p")]))
            elif k < .97 and P: do("show proof %s /size" % pat, ("plist", [x.label for x in S.sel(raw, "p")]))
            elif k < .985:
                do("show usage %s" % pat, ("usage", S.sel(raw, "apef" if not re.search(r"[*?]", raw) else "ap")))
            else:
                do("show statement %s /comment" % pat, ("statement", S.sel(raw, "apef" if not re.search(r"[*?]", raw) else "ap")))
        if not todo: return
        width = rng.choice([9999, 9999, 79, 40, 120, 200])
        s = drive.run(ctx["bin"], cmds, sc.d, pre=["set scroll continuous", "set width %d" % width])
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        if drive.READ_OK not in norm(s.seg(0)): return res.bad("read", s.seg(0), files, cmds)
        for i, f, last, ch in todo:
            seg = s.seg(i) or ""; kind = f[0]
            def viol(k, d): res.bad(k, "%s\n%s\n--- output:\n%s" % (cmds[i], d, seg[:3000]), files, cmds[:i + 1])
            def diff(want, got):
                if want != got: viol(kind, "not selected although they match: %s; selected although they do not match: %s; order %s" % ([x for x in want if x not in got][:8], [x for x in got if x not in want][:8], want[:3] + ["..."] + got[:3]))
            if kind == "labels":
                body = seg.split("type.\n", 1)[-1] if width > 80 else norm(seg).split("and type.", 1)[-1]
                got = re.findall(r"(\d+) (\S+) \$([aefp])(?=\s|$)", norm(body))
                want = [(str(x.num), x.label, x.type) for x in f[1]]
                res.ev(("labels", cmds[i], [x[1] for x in want])); res.count("labels"); res.count("labels-nonempty", bool(want)); diff(want, got)
            elif kind == "search":
                pt, jo = f[2], f[3]
                rows = {}
                if width >= 9999:
                    for m in re.finditer(r"(?m)^(\d+) (\S+) (.*)$", seg):
                        x = db.by_label.get(m.group(2)); r = m.group(3)
                        if x is None: viol("search-text", m.group(0)); continue
                        if not (jo and any(h.type == "e" for h in x.mhyps)):
                            if r[:3] != "$" + x.type + " ": viol("search-text", m.group(0))
                            r = r[3:]
                        rows[m.group(2)] = r
                else:
                    t = norm(seg)
                    pos = [(m.start(), m.group(2)) for m in re.finditer(r"(?m)^(\d+) (\S+)", seg) if m.group(2) in db.by_label and db.by_label[m.group(2)].num == int(m.group(1))]
                    for _, l in pos: rows[l] = None
                must = []; may = []; chars = []
                for x in f[1]:
                    toks = x.math
                    if jo and x.type in "ap" and any(h.type == "e" for h in x.mhyps):
                        toks = [t for h in x.mhyps if h.type == "e" for t in ["$e"] + h.math] + ["$" + x.type] + x.math
                    if match_tokens(pt, toks, False): must.append(x.label)
                    if match_tokens(pt, toks, True): may.append(x.label)
                    if char_model(pt, toks): chars.append(x.label)
                    if x.label in rows and rows[x.label] is not None and rows[x.label].split() != toks: viol("search-text", "%s: the formula shown is %s instead of %s" % (x.label, rows[x.label], " ".join(toks)))
                res.ev(("search", cmds[i], must)); res.count("search"); res.count("search-nonempty", bool(must)); res.count("search-?", any(c is ONE for p in pt if p is not ANY for c in p))
                got = list(rows)
                miss = [l for l in must if l not in rows]; extra = [l for l in got if l not in may]
                if miss: viol("search-missed", "these match but are not listed: %s" % miss[:8])
                for l in extra:
                    if l in chars: viol("search-crosses-symbols", "%s is listed although it does not match" % l)
                    else: viol("search-extra", "%s is listed although it does not match" % l)
                if got != sorted(got, key=lambda l: db.by_label[l].num): viol("search-order", str(got))
            elif kind == "comments":
                c = " ".join(f[2].split()).upper()
                want = [x.label for x in f[1] if x.lcomment is not None and x.label not in ch and "$(" not in text[x.pos:x.kpos] and c in up(" ".join(x.lcomment.split()))]
                skip = set(x.label for x in f[1] if x.label in ch or "$(" in text[x.pos:x.kpos])
                got = [l for n, l in re.findall(r'(?m)^(\d+) (\S+) \$[ap] "', seg) if l in db.by_label and l not in skip]
                res.ev(("comments", cmds[i], want)); res.count("comments"); res.count("comments-nonempty", bool(want)); diff(want, got)
            elif kind == "verify":
                want = [l for l in f[1] if l in bad]; got = list(dict.fromkeys(error_labels(seg)))
                res.ev(("verify", cmds[i], want)); res.count("verify"); diff(want, got)
                pat = cmds[i].split()[-1]; w = [l for l in f[1]]
                if pat != "*":
                    t = set(norm(seg).replace("...", " ").split()); miss = [l for l in w if l not in t]
                    if miss: viol("verify-list", "%s are not verified" % miss[:5])
            elif kind == "plist" and width >= 120:
                got = re.findall(r'The proof (?:of statement|source for) "(\S+)" (?:has|uses)', norm(seg)); res.ev(("plist", cmds[i], f[1])); res.count("plist"); diff(f[1], got)
            elif kind == "usage":
                want = [x.label for x in f[1]]; got = re.findall(r'Statement "([^"\s]+)" (?:is not|is directly)', norm(seg))
                res.ev(("usage", cmds[i], want)); res.count("usage"); diff(want, got)
            elif kind == "statement":
                want = [x.label for x in f[1] if not ("$(" in x.label)]; got = re.findall(r"(?m)^(?:Comment:[\s\S]*?)?^\d+ (\S+) \$[aefp]", seg)
                got = [l for n, l in re.findall(r"(?m)^(\d+) (\S+)(?= \$[aefp]|$)", seg) if l in db.by_label and db.by_label[l].num == int(n)]
                hyps = set(want)
                res.ev(("statement", cmds[i], want)); res.count("statement")
                if width >= 9999 and want != [l for l in got if l in hyps or db.by_label[l].type in "ap"] : diff(want, got)
        if res.sample is None: res.sample = {"commands": cmds[1:]}

def up(s): return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)

if __name__ == "__main__":
    c = harness.Check("C16", assumptions=["$? is judged between its two readings (exactly one character; none or one character)"])
    ctx = {"bin": harness.build("plain")}
    c.run("patterns", case, c.n(6000, 80000), ctx, "random databases; random label patterns (wildcards, ranges, =, %, #n, @n, lists) in SHOW LABELS, SEARCH, VERIFY PROOF, SHOW USAGE, SHOW STATEMENT; random symbol patterns made from existing formulas, /JOIN and /COMMENTS; selection compared with reference matchers")
    c.finish(min_evals=1000)
