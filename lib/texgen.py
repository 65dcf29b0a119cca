"""Typesetting ($t) comments for generated databases."""
def quote(rng, s):
    q = rng.choice("'\"")
    if q in s and rng.random() < .6:
        o = '"' if q == "'" else "'"
        if o not in s: q = o
    return q + s.replace(q, q + q) + q
def pieces(rng, s):
    """the string as one or more quoted pieces joined by +"""
    k = rng.choice([1, 1, 1, 2, 3]); cuts = sorted(rng.randrange(len(s) + 1) for _ in range(k - 1)); ps = []; a = 0
    for c in cuts + [len(s)]: ps.append(s[a:c]); a = c
    return rng.choice([" + ", "+", "\n    + "]).join(quote(rng, p) for p in ps)
def esc(t): return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
def dollar_t(rng, tokens, title=None, biblio=True, complete=True, extra=""):
    """text of the comment and {kind: {token: rendering}}; every rendering is unique to its token and kind"""
    defs = {"htmldef": {}, "althtmldef": {}, "latexdef": {}}
    stm = []
    for i, t in enumerate(tokens):
        for kind in defs:
            if not complete and rng.random() < .1: continue
            sp = rng.choice(["", " "])
            if kind == "htmldef": e = rng.choice(["%s<IMG SRC='g%d.gif' WIDTH=16 HEIGHT=19 ALT=' %s' TITLE='%s'>%s" % (sp, i, "a%d" % i, "t%d" % i, sp), "%s<FONT COLOR=\"#%06X\">h%d</FONT>" % (sp, rng.randrange(1 << 24), i), "%sh%d%s" % (sp, i, sp)])
            elif kind == "althtmldef": e = rng.choice(["%s&#x%X;%s" % (sp, 0x2190 + i, sp), "<I><FONT COLOR=\"#%06X\">u%d</FONT></I>" % (rng.randrange(1 << 24), i), "%su%d%s" % (sp, i, sp), "<SPAN CLASS=c STYLE='color:red'>u%d</SPAN>" % i])
            else: e = rng.choice(["\\sym%s " % "".join(chr(97 + int(c)) for c in str(i)), "{\\rm l%d}" % i, "\\mathrm{l%d}" % i, "l%d" % i])
            defs[kind][t] = e
            stm.append("%s %s%sas %s;" % (kind, quote(rng, t), rng.choice([" ", "\n    ", "  "]), pieces(rng, e)))
    rng.shuffle(stm)
    head = ["htmltitle %s;" % pieces(rng, title or "Test Explorer"),
            "htmlhome %s;" % pieces(rng, "<A HREF=\"mmset.html\"><FONT SIZE=-2 FACE=sans-serif><IMG SRC=\"mm.gif\" BORDER=0 ALT=\"Home\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>Home</FONT></A>")]
    if rng.random() < .7: head.append("htmldir \"../gif/\";"); head.append("althtmldir \"../uni/\";")
    if biblio: head.append("htmlbibliography \"mmset.html\";")
    if rng.random() < .5: head.append("htmlvarcolor %s;" % quote(rng, "<FONT COLOR=\"#0000FF\">wff</FONT> "))
    if rng.random() < .3: head.append("htmlcss %s;" % quote(rng, "<STYLE TYPE=\"text/css\">\\n.c { color: red }\\n</STYLE>"))
    if rng.random() < .3: head.append("htmlfont 'CLASS=math';")
    if rng.random() < .3: head.append("htmlexturl \"http://x.example/*.html\";")
    body = "\n".join(x if rng.random() > .05 else "/* a note */ " + x for x in head + stm)
    return "$( $t\n" + body + extra + "\n$)\n", defs
