#!/usr/bin/env python3
"""C05: $[ $] inclusion reads every file exactly once, in place."""
from verify_common import *
import random, scopegen

def tokens(text):
    """(token, start, end, in_comment)"""
    out = []; inc = False
    for m in re.finditer(r"\S+", text):
        t = m.group(0)
        if inc:
            out.append((t, m.start(), m.end(), True))
            if t == "$)": inc = False
            continue
        if t == "$(": inc = True; out.append((t, m.start(), m.end(), True)); continue
        out.append((t, m.start(), m.end(), False))
    return out

NAMES = ["a.mm", "a", "ab.mm", "ab", "b.mm", "main.m", "main.mm.x", "d/a.mm", "d/b", "lib-1.mm", "lib", "x_y.mm", "End", "c.mm", "c", "Begin.mm"]

class Builder:
    def __init__(self, rng, text, mode):
        self.r = rng; self.files = {}; self.names = list(NAMES); rng.shuffle(self.names); self.mode = mode
        toks = tokens(text)
        self.text = text
        if mode == "stmt": self.cuts = [t[2] for t in toks if not t[3] and t[0] in ("$.", "${", "$}")]
        else: self.cuts = [t[2] for t in toks if not t[3]]
        self.ninc = 0; self.nrep = 0; self.rep = rng.random() < .6
    def directive(self, name):
        r = self.r
        w = lambda: r.choice([" ", " ", "\n", "  ", " $( why $) ", "\n\n"])
        return r.choice(["\n", " "]) + "$[" + w() + name + w() + "$]"
    def build(self, name, a, b, depth, stack):
        """file contents covering text[a:b]"""
        r = self.r
        cuts = [c for c in self.cuts if a < c < b]
        pos = a; out = ""
        k = r.choice([0, 1, 2, 3]) if depth < 4 else 0
        pts = sorted(r.sample(cuts, min(len(cuts), 2 * k)))
        for i in range(0, len(pts) - 1, 2):
            x, y = pts[i], pts[i + 1]
            out += self.piece(pos, x, stack)
            if self.names:
                nm = self.names.pop(); self.ninc += 1
                out += self.directive(nm)
                self.files[nm] = None
                self.files[nm] = self.build(nm, x, y, depth + 1, stack + [nm])
                self.done = getattr(self, "done", []) + [nm]
            else: out += self.text[x:y]
            pos = y
        out += self.piece(pos, b, stack)
        if depth and r.random() < .2: out = out.rstrip("\n") if not out.rstrip("\n").endswith(" ") else out   # no final newline
        return out
    def piece(self, a, b, stack):
        """plain text, with extra inclusions of files that were already included or are being read"""
        r = self.r; out = ""; pos = a
        cuts = [c for c in self.cuts if a < c <= b]
        for c in cuts:
            if r.random() < self.rep * (.15 if self.mode == "stmt" else .02):
                out += self.text[pos:c]; pos = c
                old = stack + [n for n in self.files if self.files[n] is not None]
                out += self.directive(r.choice(old)); self.nrep += 1
                if r.random() < .1: out += self.directive(r.choice(old))
            elif self.mode == "stmt" and r.random() < .05:
                out += self.text[pos:c] + r.choice([" $( $[ nosuch.mm $] $)", " $( see $[ a.mm $] and $[ main.mm $)", " $( x $] $)"]); pos = c
        return out + self.text[pos:b]

def expand(files, name, seen, out):
    """reference expansion: list of (text, file, line) pieces"""
    seen.add(name)
    text = files[name]; toks = tokens(text)
    pos = 0; i = 0
    while i < len(toks):
        t, a, b, c = toks[i]
        if t == "$[" and not c:
            j = i + 1
            while toks[j][3]: j += 1
            nm = toks[j][0]; j += 1
            while toks[j][3]: j += 1
            assert toks[j][0] == "$]"
            out.append((text[pos:a], name, text.count("\n", 0, pos) + 1)); pos = toks[j][2]
            if nm not in seen: expand(files, nm, seen, out); out.append(("\n", None, 0))
            i = j + 1; continue
        i += 1
    out.append((text[pos:], name, text.count("\n", 0, pos) + 1))
    return out

def strip_markup(o):
    if "90% 100%" in norm(o): return repr((error_labels(o), unproved(o), ALLOK in o))     # VERIFY PROOF *
    o = re.sub(r'"(\$\[ nosuch.mm \$\]|see \$\[ a.mm \$\] and \$\[ main.mm|x \$\]) ?"', "", o)
    o = re.sub(r'"(Begin|End|Skip) \$\[ \S+ \$\] ?"', "", o)
    o = re.sub(r"\$\( (Begin|End|Skip) \$\[ \S+ \$\] \$\)", "", o)
    o = re.sub(r'\?Warning: Statement "\S+" has no comment', "", o)
    o = re.sub(r"-{5,}", "-----", o)
    o = re.sub(r'is located on line \d+ of the file "[^"]*"', "", o)
    o = re.sub(r'on line \d+ of file "[^"]*"', "", o)
    return norm(o)

def whereis(pieces, off):
    p = 0
    for t, f, l in pieces:
        if off < p + len(t): return f, l + t.count("\n", 0, off - p)
        p += len(t)

FAULTS = ["zz9 $a nosuchsym $.", "$c wff zz9 zz9 $.", "zz8 zz9 $a wff $.", "q* $a wff $.", "$x", "$v $.", "zz9 $p wff $."]

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        if rng.random() < .4: text = scopegen.make(rng, comments=False, bad=False)
        else: text, g, pr = mmgen.make_db(rng, comments=False, desc=False, nth=rng.randint(2, 5))
        mode = "stmt" if rng.random() < .75 else "tok"
        b = Builder(rng, text, mode)
        b.files["main.mm"] = b.build("main.mm", 0, len(text), 0, ["main.mm"])
        files = b.files
        fault = None
        if rng.random() < .35:
            # plant a fault on a line of its own in one file, at a statement boundary
            nm = rng.choice(sorted(files)); tk = [t for t in tokens(files[nm]) if not t[3]]
            ends = [t[2] for i, t in enumerate(tk) if t[0] in ("$.", "${", "$}")]
            ends = [e for e in ends if "wff" in text and mode == "stmt"]
            if ends:
                e = rng.choice(ends); fault = rng.choice(FAULTS)
                pre = expand(files, "main.mm", set(), [])
                files[nm] = files[nm][:e] + "\n" + fault + "\n" + files[nm][e:]
        pieces = expand(files, "main.mm", set(), [])
        ref = "".join(p[0] for p in pieces)
        err = None
        try: db = mmref.parse(ref)
        except mmref.MMError as ex: err = ex
        if fault and (err is None): fault = None
        if err and not fault: raise RuntimeError("generator: %s" % err)
        for n, t in files.items(): sc.write(n, t)
        sc.write("ref.mm", ref)
        cmds = ["show statement *", "show statement * /full", "verify proof *", "show proof * /normal"]
        if fault: cmds = ["verify proof *"]
        fs = dict(files, **{"ref.mm": ref})
        if not fault: cmds.append("write source out.mm /keep_includes")
        s = drive.run(ctx["bin"], ["read main.mm"] + cmds, sc.d)
        if not res.check_session(s, fs): return
        r = drive.run(ctx["bin"], ["read ref.mm"] + cmds[:4], sc.d)
        if not res.check_session(r, fs): return
        res.count("inclusions", b.ninc); res.count("repeated", b.nrep)
        nread = len(re.findall(r"Reading included file", s.seg(0)))
        res.ev((mode, b.ninc, b.nrep, hash(ref)), n=b.ninc + b.nrep)
        allc = ["read main.mm"] + cmds
        def bad(k, d): res.bad(k, d, fs, allc)
        if fault:
            res.count("faults")
            if drive.READ_OK in s.seg(0): return bad("fault-lost", "the fault %r in an included file is not reported\n%s" % (fault, s.seg(0)[-1500:]))
            m = re.findall(r'\?Error on line (\d+) of file "([^"]*)"', s.seg(0))
            e0 = [i for i in [err.pos] if i is not None]
            want = whereis(pieces, ref.index("\n" + fault + "\n") + 1)
            if not m or (m[0][1], int(m[0][0])) != want: bad("fault-place", "the fault %r is at %s but reported at %s\n%s" % (fault, want, m[:1], s.seg(0)[-1500:]))
            return
        if drive.READ_OK not in s.seg(0): return bad("read-error", "READ with inclusions fails although the expanded file is well formed\n" + s.seg(0)[-1500:])
        names = re.findall(r'Reading included file "([^"]*)"', s.seg(0))
        used = set(p[1] for p in pieces if p[1]) - {"main.mm"}
        if sorted(names) != sorted(used): bad("files-read", "files read: %s; expected each of %s once" % (names, sorted(used)))
        pick = lambda o: re.findall(r"The source has .*", o)
        if pick(s.seg(0)) != pick(r.seg(0)): bad("counts", "%s versus %s" % (pick(s.seg(0)), pick(r.seg(0))))
        for i in range(4):
            a, c = strip_markup(s.seg(1 + i)), strip_markup(r.seg(1 + i))
            if a != c:
                k = next((k for k in range(min(len(a), len(c))) if a[k] != c[k]), min(len(a), len(c)))
                bad("differs-" + cmds[i].replace(" ", "_"), "%s differs: with inclusions ...%s... in the single file ...%s..." % (cmds[i], a[max(0, k - 200):k + 200], c[max(0, k - 200):k + 200])); break
        # file and line of every statement
        locs = re.findall(r'Statement (\d+) is located on line (\d+) of the file "([^"]*)"', norm(s.seg(2)))
        for num, line, f in locs:
            st = db.stmts[int(num)]
            want = (whereis(pieces, st.pos), whereis(pieces, st.kpos))
            res.count("locations")
            if (f, int(line)) not in want: bad("location", "statement %s %s is at %s but reported at %s line %s" % (num, st.label, want, f, line)); break
        if len(locs) < len([x for x in db.stmts[1:] if x.label]): bad("locations-missing", "only %d locations shown" % len(locs))
        # the merged output reads back to the same database, from a directory without the included files
        out = sc.read("out.mm")
        if out is None: return bad("no-output", s.seg(5))
        sc.write("m2/out.mm", out)
        t = drive.run(ctx["bin"], ["read out.mm"] + cmds[:4], os.path.join(sc.d, "m2"))
        if not res.check_session(t, dict(fs, **{"out.mm": out})): return
        try: x = mmref.parse(out)
        except mmref.MMError as ex: return bad("merged-broken", "the merged source is not well formed: %s" % ex)
        key = lambda d: [(q.type, q.label, q.math, q.proof) for q in d.stmts[1:]]
        if key(x) != key(db): return bad("merged-differs", "WRITE SOURCE of the source with inclusions gives another database")
        if not b.nrep:
            for num, line, f in re.findall(r'Statement (\d+) is located on line (\d+) of the file "([^"]*)"', norm(t.seg(2))):
                st = x.stmts[int(num)]; res.count("merged-locations")
                if f != "out.mm" or int(line) not in (out.count("\n", 0, st.pos) + 1, out.count("\n", 0, st.kpos) + 1):
                    bad("merged-location", "after reading the merged source, statement %s %s is on line %d of out.mm but reported at %s line %s" % (num, st.label, out.count("\n", 0, st.pos) + 1, f, line)); break
            # same file name may be mentioned twice in the merged source only when it was included twice
            for i in range(4):
                if strip_markup(t.seg(1 + i)) != strip_markup(r.seg(1 + i)): bad("merged-reread", "%s differs after reading the merged source\n%s\n%s" % (cmds[i], t.seg(0), t.seg(1 + i)[:800])); break
        if res.sample is None: res.sample = {"files": sorted(files), "inclusions": b.ninc, "repeated": b.nrep}

def missing(res, rng, ctx):
    """missing files and malformed inclusions are errors"""
    with drive.Scratch() as sc:
        text = scopegen.make(rng, comments=False, bad=False)
        cuts = [t[2] for t in tokens(text) if t[0] in ("$.", "${", "$}")]
        e = rng.choice(cuts + [0])
        nested = rng.random() < .4
        d = rng.choice(["$[ nosuch.mm $]", "$[ a.mm", "$[ $]", "$]", "$[ a.mm b.mm $]", "$[ a.mm $. $]", "$[a.mm$]", "$[ a.mm$]", "$[ nosuch/a.mm $]", "$[ a.mm $)", "$[ $( a.mm $) $]"])
        sc.write("a.mm", "$( a $)\n")
        t = text[:e] + "\n" + d + "\n" + text[e:]
        files = {}
        if nested: files = {"main.mm": "$[ n.mm $]\n", "n.mm": t}
        else: files = {"main.mm": t}
        for n in files: sc.write(n, files[n])
        cmds = ["read main.mm", "show statement 1", "verify proof *", "read main.mm", "erase", "show labels *"]
        s = drive.run(ctx["bin"], cmds, sc.d)
        if not res.check_session(s, files): return
        res.ev((d, nested, hash(text)))
        o = s.seg(0)
        if drive.READ_OK in o or "?" not in o: res.bad("malformed-accepted-" + re.sub(r"\W", "", d), "READ accepts the malformed inclusion %r\n%s" % (d, o), files, cmds)
        elif "nosuch" in d and not re.search(r"nosuch\S*\" \(included in \"%s\"\) was not found" % ("n.mm" if nested else "main.mm"), norm(o)):
            res.bad("missing-message", "message for the missing file\n" + o, files, cmds)

if __name__ == "__main__":
    c = harness.Check("C05", assumptions=["the reference expansion of inclusions in this file follows the Metamath specification (first inclusion in place, later ones blank)"])
    ctx = {"bin": harness.build("plain")}
    c.run("trees", case, c.n(1200, 15000), ctx, "a random database cut into a random tree of files (inclusions at statement boundaries or any token, repeated, recursive and self inclusions, decoys in comments); database, files read, statement positions, error positions and the merged output compared with the reference expansion; every inclusion counts")
    c.run("missing", missing, c.n(250, 2500), ctx, "missing or malformed inclusion: an error is reported")
    c.finish(min_evals=300)
