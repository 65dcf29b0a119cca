"""Rich generated databases and random commands over them (structured, so that they can be rendered in several ways)."""
import re, random
import mmgen, mmref, texgen, deco

def words(r, n): return [r.choice(mmgen.WORDS) for _ in range(n)]

def description(r, d, label=None, long=False):
    """text of a description comment with all kinds of markup"""
    w = words(r, r.randint(2, 40 if long else 14)); ins = lambda x: w.insert(r.randint(0, len(w)), x)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.randrange(8)
        if k < 3 and d.get("forms"): ins("` " + " ".join(r.choice(d["forms"])) + " `")
        elif k < 5 and d.get("labels"): ins("~ " + r.choice(d["labels"]))
        elif k == 5: ins("_%s_" % r.choice(mmgen.WORDS))
        elif k == 6: ins("[%s] p. %d" % (r.choice(["Author", "Other", "Monk1"]), r.randint(1, 300)))
        elif k == 7: ins(r.choice(["a~~b", "x``y", "[[not", "under__score", "( parenthesis )", "1 < 2 & 3", "\"quoted\""]))
    t = " ".join(w)
    def tag(n): return " (%s by %s, %d-%s-%d.)" % (n, r.choice(["NM", "Some Body", "X Y Z"]), r.randint(1, 28), r.choice("Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()), r.randint(1994, 2025))
    if r.random() < .8: t += " " + tag("Contributed")
    if r.random() < .25: t += " " + tag("Revised")
    if r.random() < .2: t += " " + tag("Proof shortened")
    if r.random() < .12: t += " " + deco.MODIF
    if r.random() < .12: t += " " + deco.USAGE
    # lay out
    out = ""; col = 4; width = r.choice([40, 60, 79, 79, 1000])
    for x in t.split():
        if col + len(x) + 1 > width: out += "\n     "; col = 5
        else: out += " "; col += 1
        out += x; col += len(x)
    return "$(" + out + " $)"

def heading(r):
    f = r.choice(["#*", "#*#*", "=-=-", "-.-."]); w = r.randint(3, 9) * 4 // len(f) * len(f) if False else None
    line = {"#*": "#*" * 20, "#*#*": "#*#*" * 17, "=-=-": "=-=-" * 17, "-.-.": "-.-." * 17}[f]
    return "$(\n%s\n        %s\n%s\n%s$)" % (line, " ".join(words(r, r.randint(1, 5))), line, "\n  %s\n\n" % " ".join(words(r, 12)) if r.random() < .4 else "")

def rich_db(rng, nth=None, tex=True, box=True, bad_refs=False, fmt=None, complete=True, **opt):
    """dict: text, db, labels (assertions), thms, axs, hyps, toks (math symbols), forms, proofs, gen, defs"""
    while True:
        text, g, pr = mmgen.make_db(rng, fmt, nth=nth or rng.randint(2, 7), nax=opt.pop("nax", None) or rng.randint(2, 5), comments=rng.random() < .2, desc=False, **opt)
        db = mmref.parse(text)
        thms = [s.label for s in db.stmts[1:] if s.type == "p"]
        if thms: break
    d = {"labels": [s.label for s in db.asserts()], "thms": thms, "axs": [s.label for s in db.stmts[1:] if s.type == "a"], "hyps": [s.label for s in db.stmts[1:] if s.type in "ef"]}
    toks = []
    for s in db.stmts[1:]:
        if s.type in "cv":
            for t in s.math:
                if t not in toks: toks.append(t)
    d["toks"] = toks; d["forms"] = [s.math[1:] for s in db.asserts() if len(s.math) > 1]
    # descriptions before the labels
    out = []; pos = 0; dd = dict(d)
    lab = "|".join(re.escape(l) for l in sorted(d["labels"], key=len, reverse=True))
    for m in re.finditer(r"(?:^|(?<=[ \n\t]))(%s)[ \n\t]+\$[ap](?=[ \n\t])" % lab, text):
        # not inside a comment
        pre = text[:m.start()]
        if pre.rfind("$(") > pre.rfind("$)"): continue
        if rng.random() < .85:
            out.append(text[pos:m.start()]); out.append(description(rng, dd, m.group(1), rng.random() < .2) + rng.choice(["\n", "\n  ", " "])); pos = m.start()
    text = "".join(out) + text[pos:]
    for p in sorted(deco.top_level(text), reverse=True):
        if rng.random() < .12: text = text[:p] + heading(rng) + "\n" + text[p:]
    db = mmref.parse(text)
    if box and rng.random() < .25: text = deco.mathboxes(rng, text, db, rng.randint(1, 2)) or text
    d["defs"] = None
    if tex:
        extra = "\nexthtmltitle \"Second Explorer\";\nexthtmlhome '<A HREF=\"mmhil.html\">Home</A>';\nexthtmllabel \"%s\";\nexthtmlbibliography \"mmset2.html\";" % rng.choice(d["labels"]) if rng.random() < .25 else ""
        c, d["defs"] = texgen.dollar_t(rng, toks, complete=complete, extra=extra)
        if rng.random() < .5: text = text.rstrip() + "\n" + c
        else: text = c + text
    d["text"] = text; d["db"] = mmref.parse(text); d["gen"] = g; d["proofs"] = pr
    d["labels"] = [s.label for s in d["db"].asserts()]; d["thms"] = [s.label for s in d["db"].stmts[1:] if s.type == "p"]
    d["axs"] = [s.label for s in d["db"].stmts[1:] if s.type == "a"]
    return d

BIB = "<HTML>\n<BODY>\n<A NAME=\"Author\">[Author]</A> A book.\n<A NAME=\"Monk1\"></A> [Monk1]\n</BODY>\n"
PAGES = {"bib.html": "<HTML>\n<BODY>\n<!-- #START# -->\n<!-- #END# -->\nThis page was last updated on 1-Jan-2000.\n</BODY>\n",
         "rec.html": "<HTML>\n<BODY>\n<!-- last updated -->\n<!-- #START# -->\n<!-- #END# -->\nThis page was last updated on 1-Jan-2000.\n</BODY>\n",
         "mmset.html": BIB, "mmset2.html": BIB.replace("Monk1", "Other")}

class Cmd:
    """kind: a name; words: [(class, text)] with class k (keyword), q (qualifier), a (argument)"""
    def __init__(self, kind, *w, **o):
        self.kind = kind; self.words = list(w); self.texdefs = o.get("texdefs", False); self.writes = o.get("writes", False); self.html = o.get("html", False)
    def text(self):
        o = []
        for c, t in self.words: o.append("/" + t.lower() if c == "q" else t.lower() if c == "k" else arg(t))
        return " ".join(o)

def arg(t):
    if t == "" or re.search(r"[\s/\"'=!]", t): return ('"%s"' if '"' not in t else "'%s'") % t
    return t
def K(s): return [("k", x) for x in s.split()]
def A(s): return ("a", str(s))
def Q(s): return ("q", s)

class Commands:
    def __init__(self, rng, d): self.r = rng; self.d = d
    def label(self, pool="labels"): return self.r.choice(self.d[pool])
    def pattern(self, pool="labels"):
        r = self.r; l = self.label(pool); k = r.random()
        if k < .6: return l
        if k < .7: return "*"
        if k < .8: return l[:r.randint(0, len(l))] + "*"
        if k < .86: i = r.randrange(len(l)); return l[:i] + "?" + l[i + 1:]
        if k < .92: return l + "," + self.label(pool)
        return "*" + l[r.randrange(len(l)):]
    def num(self, hi=12): return self.r.choice([0, 1, 1, 2, 3, 5, hi, 9999]) if self.r.random() < .3 else self.r.randint(1, hi)
    def some(self, qs, p=.3):
        out = []
        for q in qs:
            if self.r.random() < p:
                if isinstance(q, tuple): out += [Q(q[0]), A(q[1]())]
                else: out.append(Q(q))
        # keep the argument behind its qualifier
        return out
    def show(self):
        r = self.r; k = r.randrange(16)
        if k == 0: return Cmd("labels", *K("SHOW LABELS"), A(self.pattern() if r.random() < .9 else "nosuch"), *self.some(["ALL", "LINEAR"]))
        if k < 3: return Cmd("statement", *K("SHOW STATEMENT"), A(self.pattern()), *self.some([r.choice(["FULL", "COMMENT"])], .6))
        if k == 3: return Cmd("source", *K("SHOW SOURCE"), A(self.label()))
        if k < 8:
            w = K("SHOW PROOF") + [A(self.pattern("thms"))]; m = r.random()
            if m < .35: return Cmd("proof", *w, *self.some(["ESSENTIAL", "ALL", "UNKNOWN", ("FROM_STEP", self.num), ("TO_STEP", self.num), ("DEPTH", self.num), "REVERSE", "LEMMON", "RENUMBER"], .2))
            if m < .5: return Cmd("proof-lemmon", *w, Q("LEMMON"), *self.some(["ALL", "RENUMBER", "NO_REPEATED_STEPS", ("START_COLUMN", lambda: r.randint(5, 40))], .4))
            if m < .7: return Cmd("proof-text", *w, Q(r.choice(["NORMAL", "PACKED", "COMPRESSED", "EXPLICIT"])), *self.some(["OLD_COMPRESSION", "FAST"], .1))
            if m < .8: return Cmd("proof-size", *w, Q("SIZE"))
            if m < .9: return Cmd("proof-detail", *K("SHOW PROOF"), A(self.label("thms")), Q("DETAILED_STEP"), A(self.num(20)))
            return Cmd("proof-summary", *w, Q("STATEMENT_SUMMARY"))
        if k == 8:
            return Cmd("traceback", *K("SHOW TRACE_BACK"), A(self.label()), *self.some(["ESSENTIAL", r.choice(["ALL", "AXIOMS", "TREE", "COUNT_STEPS"]), ("DEPTH", self.num) if r.random() < .2 else ("MATCH", self.pattern) if r.random() < .5 else ("TO", self.label)], .35))
        if k == 9: return Cmd("usage", *K("SHOW USAGE"), A(self.pattern()), *self.some(["DIRECT" if r.random() < .3 else "RECURSIVE", "ALL"]))
        if k == 10: return Cmd("discouraged", *K("SHOW DISCOURAGED"))
        if k < 13:
            m = r.choice(self.d["forms"]) if self.d["forms"] else ["x"]
            a = r.randrange(len(m)); b = r.randint(a + 1, len(m)); s = list(m[a:b])
            for i in range(len(s)):
                if r.random() < .2: s[i] = r.choice(["$*", "$?"])
            if r.random() < .3: return Cmd("search-comments", *K("SEARCH"), A(self.pattern()), A(r.choice(mmgen.WORDS)), Q("COMMENTS"))
            return Cmd("search", *K("SEARCH"), A(self.pattern()), A(" ".join(s)), *self.some(["ALL", "JOIN"], .25))
        if k == 13: return Cmd("verify", *K("VERIFY PROOF"), A(self.pattern("thms")), *self.some(["SYNTAX_ONLY"], .3))
        if k == 14: return Cmd("verify-markup", *K("VERIFY MARKUP"), A(self.pattern()), *self.some(["DATE_SKIP", "TOP_DATE_SKIP", "FILE_SKIP", "UNDERSCORE_SKIP", "MATHBOX_SKIP", "VERBOSE"], .3), texdefs=True)
        return Cmd("help", *K("HELP " + r.choice(["", "LANGUAGE", "PROOF_ASSISTANT", "READ", "ERASE", "OPEN LOG", "SHOW PROOF", "SHOW STATEMENT", "SEARCH", "SET SCROLL", "SET WIDTH", "VERIFY PROOF", "VERIFY MARKUP", "SUBMIT", "WRITE SOURCE", "ASSIGN", "IMPROVE", "MINIMIZE_WITH", "TOOLS", "MARKUP", "TEX", "HTML", "EXPLORE", "DEMO", "LET", "UNDO"])))
    def write(self):
        r = self.r; k = r.randrange(9)
        if k < 2: return Cmd("w-source", *K("WRITE SOURCE"), A("o%d.mm" % r.randint(0, 3)), *self.some(["KEEP_INCLUDES", r.choice(["FORMAT", "REWRAP"]), "SPLIT"], .3), writes=True)
        if k == 2: return Cmd("w-extract", *K("WRITE SOURCE"), A("e%d.mm" % r.randint(0, 3)), Q("EXTRACT"), A(self.pattern()), writes=True)
        if k == 3: return Cmd("w-theorems", *K("WRITE THEOREM_LIST"), *self.some([("THEOREMS_PER_PAGE", lambda: r.choice([1, 2, 5, 100])), "SHOW_LEMMAS", r.choice(["HTML", "ALT_HTML"]), "NO_VERSIONING"], .5), writes=True, texdefs=True, html=True)
        if k == 4: return Cmd("w-bib", *K("WRITE BIBLIOGRAPHY"), A("bib.html"), writes=True, texdefs=True, html=True)
        if k == 5: return Cmd("w-recent", *K("WRITE RECENT_ADDITIONS"), A("rec.html"), *self.some([("LIMIT", lambda: r.choice([1, 3, 100])), r.choice(["HTML", "ALT_HTML"])], .5), writes=True, texdefs=True, html=True)
        if k == 6: return Cmd("s-brief", *K("SHOW STATEMENT"), A(self.pattern()), Q(r.choice(["BRIEF_HTML", "BRIEF_ALT_HTML"])), *self.some(["NO_VERSIONING"]), writes=True, texdefs=True, html=True)
        if k == 7: return Cmd("s-mnemonics", *K("SHOW STATEMENT"), A(self.pattern()), Q("MNEMONICS"), writes=True, texdefs=True, html=True)
        return Cmd("s-html", *K("SHOW STATEMENT"), A(self.pattern()), Q(r.choice(["HTML", "ALT_HTML"])), *self.some(["NO_VERSIONING"]), writes=True, texdefs=True, html=True)
    def wrong(self):
        """commands that are answered with an error message (no prompts for more)"""
        r = self.r
        return r.choice(["shwo labels *", "show statement nosuch", "show proof nosuch", "show proof %s" % self.label("axs"), "verify proof nosuch", "prove nosuch", "prove %s" % self.label("axs"), "assign 1 x", "unify all", "save new_proof", "undo", "write source \"nodir/x.mm\"",
                         "show proof %s /detailed_step 9999" % self.label("thms"), "show trace_back nosuch", "show usage nosuch", "search * '$*' /nosuch", "show labels /al /linearr", "read other.mm", "write bibliography nosuch.html", "close log", "close tex", "set nosuch on", "verify markup nosuch",
                         "show statement %s /tex" % self.label(), "show source nosuch", "sx", "s", "/", "!", "", "! comment", "show statement * /full /html", "write source x.mm /extract nosuch", "write recent_additions rec.html /html /alt_html", "improve all", "let step 1 = 'x'", "minimize_with *",
                         "write source \"main.mm/x\"", "show labels \"a b\"", "file search nosuch.mm x", "more nosuch", "markup nosuch.txt x.html /html", "submit nosuch.cmd", "show proof %s /normal /compressed" % self.label("thms")])
    def pa(self):
        """a Proof Assistant visit that saves nothing: list of command lines"""
        r = self.r; l = self.label("thms"); o = ["prove %s /override" % l]
        for _ in range(r.randint(0, 8)):
            k = r.randrange(12)
            o.append(["show new_proof /all", "show new_proof /normal", "delete all", "improve all", "assign last %s /no_unify /override" % self.label(), "minimize_with * /override", "delete floating_hypotheses", "unify all", "undo", "redo",
                      "delete step %d" % r.randint(1, 12), "initialize all", "show new_proof /unknown", "expand %s" % self.label(), "initialize step %d" % r.randint(1, 9)][r.randrange(15)])
        return o + ["_exit_pa /force"]
    def tools(self):
        r = self.r; n = r.choice(["a.txt", "b.txt"])
        return ["tools", r.choice(["sort %s ''" % n, "reverse %s" % n, "add %s 'x' ''" % n, "count %s a" % n, "copy a.txt c.txt", "number n.txt 1 5 1", "substitute %s a b all ''" % n, "type %s 3" % n, "nosuch", "match %s a y" % n]), "exit"]
    def settings(self):
        r = self.r
        return r.choice(["set echo on", "set echo off", "set unification_timeout %d" % r.choice([0, 100, 100000]), "set search_limit %d" % r.choice([1, 1000, 25000]), "set discouragement %s" % r.choice(["on", "off"]), "set contributor \"%s\"" % r.choice(["A B", "?who?", "N. N."]),
                         "set undo %d" % r.choice([0, 1, 200]), "set jeremy_henty_filter %s" % r.choice(["on", "off"])])
