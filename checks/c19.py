#!/usr/bin/env python3
"""C19: HTML and TeX output shows the database.
Random databases with typesetting definitions whose renderings are unique; the pages written by SHOW STATEMENT / HTML and
/ ALT_HTML, the theorem list and the TeX file are parsed and compared with what the database and its definitions demand."""
from verify_common import *
import random, sys, html.parser, texgen
VOID = {"br", "hr", "img", "meta", "link"}
LAX = {"p", "li", "tr", "td", "th", "dt", "dd"}      # HTML 4: the end tag is optional
def squash(t): return re.sub(r"\s+", "", t)

# end of a page without the table of variable colors (known finding)
TRAILER = re.compile(r'</TABLE></CENTER>\s*<TABLE BORDER=0 WIDTH="100%">\s*<TR><TD WIDTH="25%">&nbsp;</TD>\s*<TD ALIGN=CENTER VALIGN=BOTTOM>\s*<FONT SIZE=-2 FACE=sans-serif>\s*Copyright')
class Page(html.parser.HTMLParser):
    """nesting, names, references, and the source text of every table row"""
    def __init__(self, text):
        super().__init__(convert_charrefs=False); self.text = text; self.stack = []; self.bad = []; self.names = set(); self.refs = []; self.title = ""
        self.lines = [0]
        for l in text.split("\n"): self.lines.append(self.lines[-1] + len(l) + 1)
        self.feed(text); self.close()
        for t in self.stack:
            if t not in LAX: self.bad.append("<%s> is not closed" % t)
    def handle_starttag(self, t, a):
        a = dict(a)
        if "name" in a and t == "a": self.names.add(a["name"])
        if "href" in a: self.refs.append(a["href"])
        if t not in VOID: self.stack.append(t)
    def handle_endtag(self, t):
        if t in VOID: self.bad.append("</%s>" % t); return
        while self.stack and self.stack[-1] != t and self.stack[-1] in LAX and t not in LAX: self.stack.pop()
        if t in LAX:
            while self.stack and self.stack[-1] != t and self.stack[-1] in LAX and t in self.stack: self.stack.pop()
            if self.stack and self.stack[-1] == t: self.stack.pop()
            else: self.bad.append("</%s> closes <%s>" % (t, self.stack[-1] if self.stack else ""))
            return
        if self.stack and self.stack[-1] == t: self.stack.pop()
        else:
            self.bad.append("</%s> at %s while <%s> is open" % (t, self.getpos(), self.stack[-1] if self.stack else "nothing"))
            if t in self.stack:
                while self.stack.pop() != t: pass
    def handle_data(self, d):
        if self.stack and self.stack[-1] in ("style", "script"): return
        if self.stack and self.stack[-1] == "title": self.title += d
        if "<" in d: self.bad.append("a raw < in the text")

def tables(text, summary):
    return re.findall(r'SUMMARY="%s">(.*?)</TABLE>' % summary, text, re.S)
def rows(t): return [re.split(r"</?TD[^>]*>", r) for r in re.findall(r"<TR ALIGN=LEFT>(.*?)</TR>", t, re.S)]
def strip_tags(t): return re.sub(r"<(?:[^<>\"']|\"[^\"]*\"|'[^']*')*>", "", t)
PINK = re.compile(r"&nbsp;<SPAN\s+CLASS=r\s+STYLE=\"color:#[0-9A-F]{6}\">(\d+)</SPAN>")
SPECIAL = ["a<b", "x&y", "p>q", "#1", "100%", "x^y", "{z}", "$3", "\\w", "say", "e_g", "it's", "(so)"]

class World:
    def __init__(self, rng):
        text, g, pr = mmgen.make_db(rng, comments=False, nthms=rng.randint(2, 9))
        self.db0 = mmref.parse(text); toks = sorted(self.db0.consts | self.db0.allvars)
        self.descs = {}
        labels = [s.label for s in self.db0.asserts()]
        def put(m):
            if m.group(2) not in labels: return m.group(0)
            d = self.desc(rng, labels, toks); self.descs[m.group(2)] = d
            return "%s$( %s $)\n%s" % (m.group(1), d, m.group(2)) + m.group(3)
        text = re.sub(r"(^|\s)([A-Za-z0-9._-]+)(\s+\$[ap]\s)", put, text)
        t, self.defs = texgen.dollar_t(rng, toks)
        self.font = "CLASS=math" if "htmlfont 'CLASS=math'" in t else ""
        self.text = rng.choice([t + text, text + "\n" + t])
        self.db = mmref.parse(self.text); self.aps = [s for s in self.db.asserts()]; self.toks = toks
        self.num = {s.label: i + 1 for i, s in enumerate(self.aps)}
    def desc(self, rng, labels, toks):
        w = []
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            if r < .12: w.append("` " + " ".join(t.replace("`", "``") for t in rng.choices(toks, k=rng.randint(1, 4))) + " `")
            elif r < .22: w.append("~ " + rng.choice(labels))
            elif r < .3: w.append("_%s_" % rng.choice(["very", "not", "all sets"]))
            elif r < .38: w.append(rng.choice(SPECIAL[:3]))
            else: w.append(rng.choice(mmgen.WORDS))
        return " ".join(w)[0].upper() + " ".join(w)[1:] if w[0][0] not in "`~_" else "See " + " ".join(w)
    def plain(self, kind, math): return squash("".join(self.defs[kind][t] for t in math))
    def render(self, kind, math):
        x = self.plain(kind, math)
        return "<SPAN%s>%s</SPAN>" % (self.font, x) if kind == "althtmldef" else x

def esc(t): return t.replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")       # & may begin an entity
def want_desc(w, kind, d):
    """the description as it must appear, without white space and statement numbers"""
    out = []; toks = d.split(" "); i = 0
    while i < len(toks):
        t = toks[i]
        if t == "`":
            j = toks.index("`", i + 1); out.append(w.render(kind, [x.replace("``", "`") for x in toks[i + 1:j]])); i = j + 1
        elif t == "~": l = toks[i + 1]; out.append('<AHREF="%s.html">%s</A>' % (l, l)); i += 2
        elif t.startswith("_") or t.endswith("_") and t != "e_g": out.append(t.replace("_", "<I>", 1) if t.startswith("_") and not t.endswith("_") else ("<I>%s</I>" % t[1:-1] if t.startswith("_") else t[:-1] + "</I>")); i += 1
        else: out.append(esc(t)); i += 1
    return squash("".join(out)).replace("<I>", "<em>").replace("</I>", "</em>").lower()
def norm_desc(t): return squash(PINK.sub("", t)).replace("<EM>", "<em>").replace("<I>", "<em>").replace("</EM>", "</em>").replace("</I>", "</em>").lower()

def pages(res, rng, ctx):
    w = World(rng); db = w.db; kind, qual = rng.choice([("htmldef", "/html"), ("althtmldef", "/alt_html")])
    pat = rng.choice(["*", "*", "*", rng.choice(w.aps).label, rng.choice(w.aps).label[:2] + "*"])
    per = rng.choice([2, 3, 5, 100, 100, 100])
    cmds = ["read t.mm", "show statement %s %s" % (pat, qual), "write theorem_list %s /theorems_per_page %d%s" % (qual, per, rng.choice(["", " /show_lemmas"]))]
    with drive.Scratch() as sc:
        sc.write("t.mm", w.text); sc.write("mmset.html", "<HTML><BODY><A NAME=\"x\"></A></BODY></HTML>\n")
        ss = drive.run(ctx["asan"] if rng.random() < .05 else ctx["plain"], cmds, sc.d, timeout=60)
        files = {"t.mm": w.text}
        if not res.check_session(ss, files, "HTML pages"): return
        got = {n: sc.read(n) for n in sc.ls()}
    def bad(key, desc): res.bad(key, desc, files, ss.cmds)
    from fnmatch import fnmatchcase
    match = [s for s in w.aps if fnmatchcase(s.label, pat)]
    want = set(s.label + ".html" for s in match)
    if pat[0] == "*": want |= {"mmascii.html", "mmdefinitions.html", "mmtheoremsall.html"}
    have = set(n for n in got if n.endswith(".html")) - {"mmset.html"}
    pg = set(n for n in have if re.match(r"mmtheorems\d*\.html$", n))
    if have - pg != want: bad("pages", "%r wrote %s, not %s" % (cmds[1], sorted(have - pg - want)[:4], sorted(want - have)[:4])); return
    known = set(s.label + ".html" for s in w.aps) | pg | {"mmset.html", "mm.html", "mmbiblio.html", "mmdefinitions.html", "mmascii.html", "mmrecent.html"}
    cols = {n: Page(t) for n, t in got.items() if n in have}
    for n, p in cols.items():
        res.count("pages"); res.ev((n, hash(got[n])))
        if p.bad and TRAILER.search(got[n]) and n[:-5] in w.num and w.db.by_label[n[:-5]].type == "a" and [re.sub(r"\(.*?\)", "", x) for x in p.bad] == ["</table> at  while <body> is open", "</center> at  while <body> is open"]:
            bad("page-trailer", "%s closes a table it has not opened: %s" % (n, p.bad))
        elif p.bad: bad("nesting", "%s: %s" % (n, p.bad[:3])); return
        for h in p.refs:
            res.count("links")
            if "//" in h or h.startswith("../") or h.startswith("mailto"): continue
            f, _, a = h.partition("#")
            if f and f.endswith(".html") and f not in known: bad("dangling", "%s links to %s" % (n, h)); return
            if a and (not f or f in pg and (per == 100 or n in pg)) and a not in cols[f or n].names: bad("dangling", "%s links to %s, where there is no such name" % (n, h)); return
        for l, k in re.findall(r'HREF="([^"#]+)\.html">[^<]*</A>' + PINK.pattern, got[n]):
            if l in w.num and int(k) != w.num[l]: bad("number", "%s gives statement %s the number %s, not %d" % (n, l, k, w.num[l])); return
    users = {s.label: [] for s in w.aps}; proofs = {}
    for s in w.aps:
        if s.type == "p":
            v = mmref.verify(db, s); proofs[s.label] = v
            if v.dag is None: continue
            seen = set(); st = [v.root]; used = set()
            while st:
                i = st.pop()
                if i in seen: continue
                seen.add(i); l, ks = v.dag.nodes[i]; st += ks; used.add(l)
            for l in used:
                if l in users: users[l].append(s.label)
    for s in match:
        t = got[s.label + ".html"]
        if not one_page(res, w, kind, s, t, proofs, users, bad): return
    theorem_list(res, w, kind, got, pg, per, "/show_lemmas" in cmds[2], bad)
    if res.sample is None: res.sample = {"commands": cmds, "pages": sorted(want)[:5]}

def one_page(res, w, kind, s, t, proofs, users, bad):
    L = s.label; es = [h for h in s.mhyps if h.type == "e" or s.type == "a" and s.math[0] != "|-"]
    if ("<TITLE>%s - " % L) not in t: bad("title", "%s.html has no title" % L); return False
    k = PINK.search(t)
    # description
    d = re.search(r"<B>Description: </B>(.*?)</TD></TR></TABLE>", t, re.S)
    if L in w.descs:
        res.count("descriptions"); g = norm_desc(d.group(1)) if d else None; e = want_desc(w, kind, w.descs[L])
        if g != e: bad("description", "the description of %s appears as %r, not %r (source %r)" % (L, g, e, w.descs[L])); return False
    # hypotheses and assertion
    th = tables(t, "Hypothes[ie]s"); r = [q for x in th for q in rows(x)]
    got = [(strip_tags(q[1]).strip(), squash(q[3])) for q in r]
    e = [(h.label, w.render(kind, h.math)) for h in es]
    if got != e: bad("hypotheses", "the hypotheses of %s appear as %s, not %s" % (L, got, e)); return False
    r = [q for x in tables(t, "Assertion") for q in rows(x)]
    got = [(strip_tags(q[1]).strip(), squash(q[3])) for q in r]
    e = [(L, w.render(kind, s.math))]
    if got != e: bad("assertion", "the assertion of %s appears as %s, not %s" % (L, got, e)); return False
    res.count("formulas", len(es) + 1)
    # distinct variables
    m = re.search(r"Distinct variable</A> groups?:(.*?)</CENTER>", t, re.S)
    back = {squash(v): q for q, v in w.defs[kind].items()}
    pairs = set()
    if m:
        q = m.group(1).strip()
        if kind == "althtmldef":
            x = re.match(r"(?:\s|&nbsp;)*<SPAN\s*%s\s*>(.*)</SPAN>\s*\Z" % w.font.replace("=", "="), q, re.S)
            if not x: bad("dv", "%s shows the disjoint variables %r" % (L, q)); return False
            q = x.group(1)
        for grp in re.split(r"\s*&nbsp;\s*", q):
            vs = [back.get(squash(x)) for x in grp.split(",") if x.strip()]
            if None in vs: bad("dv", "%s shows the disjoint variables %r" % (L, grp)); return False
            pairs |= {mmref.pair(a, b) for i, a in enumerate(vs) for b in vs[i + 1:]}
    if pairs != set(s.mdv): bad("dv", "%s shows the disjoint variables %s, not %s" % (L, sorted(pairs), sorted(s.mdv))); return False
    res.count("$d pairs", len(pairs))
    # proof
    tp = tables(t, "Proof of theorem")
    if (s.type == "p") != bool(tp): bad("proof", "%s.html: %d proofs for a $%s statement" % (L, len(tp), s.type)); return False
    if s.type == "p":
        v = proofs[L]
        if v.kind in ("ok", "dv"):
            if not proof_rows(res, w, kind, s, v, rows(tp[0]), bad): return False
            if not lists(res, w, s, v, t, bad): return False
    # references
    m = re.search(r"<B>This (?:theorem|syntax axiom|axiom|definition) is referenced by:</B>(.*?)</FONT>", t, re.S)
    if m:
        res.count("reference lists"); g = re.findall(r'HREF="([^"]+)\.html"', m.group(1))
        if g != users[L]: bad("referenced", "%s is said to be referenced by %s; it is by %s" % (L, g, users[L])); return False
    # neighbours
    i = w.aps.index(s); n = len(w.aps)
    for key, txt, j in [("previous", r"&lt;\s+(?:Previous|Wrap)", i - 1), ("next", r"(?:Next|Wrap)\s+&gt;", (i + 1) % n)]:
        m = re.search(r'<A HREF="([^"]+)\.html">\s*' + txt, t)
        if not m or m.group(1) != w.aps[j].label: bad(key, "%s.html names %s as its %s statement, not %s" % (L, m and m.group(1), key, w.aps[j].label)); return False
    return True

def proof_rows(res, w, kind, s, v, rs, bad):
    db = w.db; L = s.label; tab = {}; last = None
    for q in rs:
        n = q[1].strip(); hy = [x.strip() for x in strip_tags(q[3]).replace("&nbsp;", "").split(",") if x.strip()]
        lab = strip_tags(PINK.sub("", q[5])).strip()
        f = re.sub(r'<A\s+NAME="\d+"></A>', "", q[7]); f = re.sub(r"<SPAN\s+CLASS=i>[^<]*</SPAN>", "", f, count=1)
        if n != str(len(tab) + 1): bad("proof-step", "%s.html: proof step %s follows step %d" % (L, n, len(tab))); return False
        if any(h not in tab for h in hy): bad("proof-step", "%s.html: step %s refers to %s" % (L, n, hy)); return False
        tab[n] = (lab, hy, squash(f)); last = n
    res.count("proof steps", len(tab))
    memo = {}
    def same(n, i):
        if (n, i) in memo: return memo[n, i]
        l, ks = v.dag.nodes[i]; st = db.by_label[l]
        ke = [k for h, k in zip(st.mhyps, ks) if h.type == "e"]
        lab, hy, f = tab[n]; m = None
        if lab != l: m = "step %s uses %s, not %s" % (n, lab, l)
        elif f != w.render(kind, v.exprs[i]): m = "step %s shows %s, not %s" % (n, f, w.render(kind, v.exprs[i]))
        elif len(hy) != len(ke): m = "step %s has the hypotheses %s" % (n, hy)
        else:
            for a, b in zip(hy, ke):
                m = m or same(a, b)
        memo[n, i] = m; return m
    if last is None: bad("proof-step", "%s.html shows no proof step" % L); return False
    m = same(last, v.root)
    if m: bad("proof-step", "%s.html: %s" % (L, m)); return False
    return True

def lists(res, w, s, v, t, bad):
    """axioms, definitions used (also through other theorems)"""
    db = w.db; done = set(); todo = [s.label]
    while todo:
        l = todo.pop()
        if l in done: continue
        done.add(l); x = db.by_label[l]
        if x.type != "p": continue
        y = mmref.verify(db, x)
        if y.dag is None: return True
        st = [y.root]; seen = set()
        while st:
            i = st.pop()
            if i in seen: continue
            seen.add(i); a, ks = y.dag.nodes[i]; st += ks
            if db.by_label[a].type in "ap": todo.append(a)
    ax = [x for x in w.aps if x.type == "a" and x.label in done]
    logical = [x for x in ax if x.math[0] == "|-"]
    for what, lst in [("axioms", [x.label for x in logical if x.label.startswith("ax-")]), ("definitions", [x.label for x in logical if x.label.startswith("df-")])]:
        m = re.search(r"<B>This theorem (?:was proved from|depends on)\s+%s:</B>(.*?)</FONT>" % what, t, re.S)
        g = re.findall(r'HREF="([^"]+)\.html"', m.group(1)) if m else []
        res.count(what + " listed", len(g))
        if sorted(g) != sorted(lst): bad(what, "%s.html lists the %s %s, not %s" % (s.label, what, g, lst)); return False
    return True

def theorem_list(res, w, kind, got, pg, per, lemmas, bad):
    n = (len(w.aps) + per - 1) // per
    want = {"mmtheorems.html"} | {"mmtheorems%d.html" % (i + 1) for i in range(n)}
    if pg != want: bad("list-pages", "the theorem list of %d statements, %d a page, is in %s" % (len(w.aps), per, sorted(pg))); return False
    for i in range(n):
        t = got["mmtheorems%d.html" % (i + 1)]; part = w.aps[i * per:(i + 1) * per]
        items = re.findall(r'<TR[^>]*><TD\s+NOWRAP>(.*?)</TD><TD\s+ALIGN=CENTER>\s*<A\s+HREF="([^"]+)\.html">([^<]*)</A>(.*?)</TD><TD\s+ALIGN=LEFT><A\s+NAME="([^"]+)"></A>(.*?)</TD></TR><TR[^>]*><TD\s+COLSPAN=3\s+ALIGN=CENTER>(.*?)</TD></TR>', t, re.S)
        if [x[1] for x in items] != [s.label for s in part]: bad("list-items", "page %d of the theorem list has %s, not %s" % (i + 1, [x[1] for x in items], [s.label for s in part])); return False
        for s, x in zip(part, items):
            res.count("list entries")
            es = [w.render(kind, h.math) for h in s.mhyps if h.type == "e"]
            amp = "&amp;" if kind == "htmldef" else "<SPAN%s>&amp;</SPAN>" % w.font
            f = amp.join(es) + ("=>" if es else "") + w.render(kind, s.math)
            g = squash(x[6]).replace("<IMGSRC='bigto.gif'WIDTH=15HEIGHT=19ALT='=&gt;'ALIGN=TOP>", "=>").replace("<IMGSRC='amp.gif'WIDTH=12HEIGHT=19ALT='&amp;'ALIGN=TOP>", "&amp;").replace("<FONTFACE=sans-serif>&#8658;</FONT>", "=>")
            g2 = re.sub(r"&nbsp;", "", g); f2 = re.sub(r"&nbsp;", "", f)
            if g2 != f2: bad("list-formula", "page %d of the theorem list shows %s as %s, not %s" % (i + 1, s.label, g2, f2)); return False
            e = norm_desc(x[5]); d = want_desc(w, kind, w.descs[s.label]) if s.label in w.descs else ""
            if e != d: bad("list-description", "page %d of the theorem list describes %s as %r, not %r" % (i + 1, s.label, e, d)); return False
    return True

def tsq(t): return re.sub(r"\s+|\\,", "", t)
def tex(res, rng, ctx):
    w = World(rng); db = w.db; pick = rng.sample(w.aps, min(len(w.aps), rng.randint(2, 8)))
    cmds = ["read t.mm", "open tex x.tex"]; todo = []
    for s in pick:
        todo.append(("s", s)); cmds.append("show statement %s /tex" % s.label)
        if s.type == "p" and rng.random() < .8: todo.append(("p", s)); cmds.append("show proof %s /lemmon /renumber /tex" % s.label)
    cmds.append("close tex")
    with drive.Scratch() as sc:
        sc.write("t.mm", w.text); sc.write("mmset.html", "<HTML></HTML>\n")
        ss = drive.run(ctx["asan"] if rng.random() < .05 else ctx["plain"], cmds, sc.d, timeout=60)
        files = {"t.mm": w.text}
        if not res.check_session(ss, files, "TeX file"): return
        t = sc.read("x.tex")
    def bad(key, desc): res.bad(key, desc, files, ss.cmds)
    def ren(m): return tsq("".join(w.defs["latexdef"][x] for x in m))
    if not t or "\\begin{document}" not in t or not t.rstrip().endswith("\\end{document}"): bad("tex-document", "x.tex is no document"); return
    st = []
    for b, e in re.findall(r"\\(begin|end)\{(\w+)\}", t):
        if b == "begin": st.append(e)
        elif not st or st.pop() != e: bad("tex-nesting", "\\%s{%s} is unbalanced" % (b, e)); return
    if st: bad("tex-nesting", "%s is not ended" % st); return
    blocks = re.findall(r"\\begin\{align\}(.*?)\\end\{align\}", t, re.S)
    if len(blocks) != len(todo): bad("tex-blocks", "%d displays for %d commands" % (len(blocks), len(todo))); return
    for (k, s), b in zip(todo, blocks):
        res.count("TeX displays"); res.ev((k, hash(b)))
        if k == "s":
            es = [ren(h.math) for h in s.mhyps if h.type == "e"]
            want = "\\quad\\&\\quad".join(es) + ("\\quad\\Rightarrow\\quad" if es else "") + ren(s.math) + "\\label{eq:%s}\\tag{%s}" % (s.label, s.label)
            if tsq(b) != want: bad("tex-statement", "the TeX display of %s is %s, not %s" % (s.label, tsq(b), want)); return
            continue
        v = mmref.verify(db, s)
        if v.kind not in ("ok", "dv"): continue
        b = re.sub(r"\s*\\notag\s*\\\\\s*&&\s*&\s*\\qquad\s*", " ", b)
        tab = {}; loc = {}; last = None
        for r in re.finditer(r"(\d+) &&(.*?)&([^&]*?)&(\((@\d+)\)|\\text\{Hyp~[^}]*\}|\(\\mbox\{\\ref\{eq:([^}]*)\}\}([0-9,\s]*)\))\s*\\notag(?:%(\S+))?", b, re.S):
            n = r.group(1); lab = re.sub(r"\s", "", r.group(6) or r.group(8) or ""); hy = [x.strip() for x in (r.group(7) or "").split(",") if x.strip()]
            if n in tab or any(h not in tab for h in hy): bad("tex-step", "TeX proof of %s: step %s refers to %s" % (s.label, n, hy)); return
            m = re.match(r"@\d+(?=:)", r.group(2).strip())
            if m: loc[m.group(0)] = n
            if r.group(5):
                if r.group(5) not in loc or tab[loc[r.group(5)]][2] != tsq(r.group(3)): bad("tex-step", "TeX proof of %s: step %s refers to %s" % (s.label, n, r.group(5))); return
                tab[n] = tab[loc[r.group(5)]]
            else: tab[n] = (lab, hy, tsq(r.group(3)))
            last = n
        res.count("TeX proof steps", len(tab))
        def same(n, i):
            l, ks = v.dag.nodes[i]; x = db.by_label[l]; ke = [q for h, q in zip(x.mhyps, ks) if h.type == "e"]
            lab, hy, f = tab[n]
            if lab != l: return "step %s uses %s, not %s" % (n, lab, l)
            if f != ren(v.exprs[i]): return "step %s shows %s, not %s" % (n, f, ren(v.exprs[i]))
            if len(hy) != len(ke): return "step %s has the hypotheses %s" % (n, hy)
            for a, c in zip(hy, ke):
                m = same(a, c)
                if m: return m
        m = same(last, v.root) if last else "no step"
        if m: bad("tex-step", "TeX proof of %s: %s\n%s" % (s.label, m, b[:600])); return

if __name__ == "__main__":
    c = harness.Check("C19", assumptions=["renderings are unique and white space inside formulas is not significant"])
    ctx = {"plain": harness.build("plain"), "asan": harness.build("asan")}
    c.run("pages", pages, c.n(5000, 50000), ctx, "random databases with $t definitions and marked-up descriptions; all statement pages and theorem lists parsed")
    c.run("tex", tex, c.n(3000, 30000), ctx, "statements and proofs typeset into a TeX file")
    c.finish(min_evals=1000)
