#!/usr/bin/env python3
"""C15: SHOW TRACE_BACK and SHOW USAGE report the true dependency graph."""
from verify_common import *
import random, scopegen, c02, c10, sys
sys.setrecursionlimit(20000)

def wild(pats, label):
    for p in pats.split(","):
        if re.fullmatch("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in p), label): return True
    return False

class Graph:
    """what every proof refers to, from the reference decoder"""
    def __init__(self, db, text):
        self.db = db; self.text = text; self.steps = {}; self.ord = {s.label: s.num for s in db.stmts[1:] if s.label}
        for s in db.stmts[1:]:
            if s.type != "p": continue
            try:
                st = mmref.raw_steps(db, s); mmref.link_steps(db, s, st); mmref.decode(db, s)
            except mmref.ProofError: st = None
            self.steps[s.label] = st
    def sel(self, l, ess):
        """the labels of the steps of the proof of l (local references left out), '?' for an unknown step"""
        st = self.steps[l]
        if st is None: return ["?"]
        return [x.label for x in st if x.ref is None and (x.ess or not ess)]
    def length(self, l, ess):
        st = self.steps[l]
        return 1 if st is None else sum(1 for x in st if x.ess or not ess)
    def type(self, l): return self.db.by_label[l].type
    def uses(self, l, ess): return set(x for x in self.sel(l, ess) if x != "?" and self.type(x) in "ap") if self.type(l) == "p" else set()
    def trace(self, l, ess, ok=None):
        seen = set(); todo = [l]; unk = set()
        while todo:
            x = todo.pop()
            if self.type(x) == "p" and "?" in self.sel(x, ess): unk.add(x)
            for y in self.uses(x, ess):
                if y not in seen and (ok is None or y in ok): seen.add(y); todo.append(y)
        return seen, unk
    def users(self, l, rec):
        found = {l}; out = []
        for s in self.db.stmts[self.ord[l] + 1:]:
            if s.type == "p" and set(self.sel(s.label, False)) & found:
                out.append(s.label)
                if rec: found.add(s.label)
        return out
    def counts(self, l, ess):
        clo, _ = self.trace(l, ess)
        P = [x for x in clo if self.type(x) == "p"]
        nh = lambda p: sum(1 for h in self.db.by_label[p].mhyps if h.type == "e" or not ess)
        use = {}
        for p in P + [l]:
            for x in self.sel(p, ess): use[x] = use.get(x, 0) + 1
        tot = self.length(l, ess); a = tot; b = 0
        for p in P:
            tot += self.length(p, ess)
            if use[p] > 1: b += 1; a += self.length(p, ess)
            else: a += self.length(p, ess) - 1 - nh(p)
        exp = {}; low = [False]
        dist = {}; odd = [False]
        for p in sorted(P + [l], key=lambda x: self.ord[x]):
            n = 0; d = None
            for x in self.sel(p, ess):
                if x == "?" or self.type(x) != "p": n += 1
                else: n += exp[x] - nh(x)
                if n < 0: low[0] = True
                if x != "?": d = max(d or 0, dist.get(x, 0) + 1)
            if d is None: odd[0] = True; d = 0
            exp[p] = n; dist[p] = d
        return self.length(l, ess), len(P), tot, b, a, (None if low[0] else exp[l]), (None if odd[0] else dist[l])
    def tree(self, l, ess, depth):
        out = []; found = []
        def desc(s): return None if "$(" in self.text[s.pos:s.kpos] else " ".join((s.lcomment or "").split())
        def rec(x, d):
            s = self.db.by_label[x]
            if s.type in "ap": out.append(("node", d, x, s.type, desc(s)))
            if s.type != "p" or (depth and depth < d + 2): return
            old = []; mine = []
            sel = self.sel(x, ess)
            for y in sel:
                if y == "?": continue
                if y not in found:
                    rec(y, d + 1); mine.append(y); found.append(y)
                elif y not in mine and y not in old: old.append(y)
            old = [y for y in old if self.type(y) in "ap"]
            if old: out.append(("above", d + 1, set(old)))
            if "?" in sel: out.append(("unproved", d + 1, x))
        rec(l, 0)
        return out

def parse_tree(txt):
    out = []
    for ln in txt.split("\n"):
        if not ln.strip(): continue
        ind = len(ln) - len(ln.lstrip(" ")); b = ln.strip()
        m = re.fullmatch(r'(\S+) \$([ap])  "(.*)"', b)
        if m: out.append(("node", ind // 3, m.group(1), m.group(2), " ".join(m.group(3).split()))); continue
        m = re.fullmatch(r"\*\*\* Statement (\S+) has not been proved\.", b)
        if m: out.append(("unproved", ind // 3, m.group(1))); continue
        if b.endswith(" (shown above)"): out.append(("above", ind // 3, set(b[:-14].split()))); continue
        out.append(("?", ln))
    return out

ERRS = re.compile(r"(?m)^\n?\?Error on [^\n]*\n[^\n]*\n *\^+\n(?:[^ \n][^\n]*\n)+?(?=\n?\?Error|  |The |Statement|Warning|\Z|\n)")
def labels(ln):
    return [] if ln.strip() == "(None)" else [re.sub(r"\(\$[aefp]\)$", "", x) for x in ln.split()]

def rnd_pat(rng, L):
    l = rng.choice(L); k = rng.random()
    if k < .5: return l
    if k < .6: return "*"
    if k < .7: return l[:rng.randint(1, max(1, len(l) - 1))] + "*"
    if k < .8: i = rng.randrange(len(l)); return l[:i] + "?" + l[i + 1:]
    if k < .9: return l + "," + rng.choice(L)
    return "*" + l[-1:] + "," + rng.choice(L)

def packed_odd(rng, db, s, d, root):
    """a packed or compressed proof whose stored steps share subproofs in an unusual way"""
    return mmref.enc_packed(db, s, d, root, explicit=rng.random() < .5, rng=rng)

def doubling(rng):
    """theorems whose full expansion grows exponentially"""
    t = "$c |- wff a . ( ) $. $v p q $. wp $f wff p $. wq $f wff q $.\nwa $a wff a $. wj $a wff ( p . q ) $.\nax $a |- a $.\n${ j.1 $e |- p $. j.2 $e |- q $. jn $a |- ( p . q ) $. ${ jt $p |- ( q . p ) $= wq wp j.2 j.1 jn $. $} $}\n"
    ex, pf, last = "a", "wa", "ax"; n = rng.randint(3, 60)
    exs = [("a", "ax")]
    for i in range(n):
        a, b = exs[-1], rng.choice(exs[-3:])
        if len(a[0]) + len(b[0]) > 4000: break
        l = "t%d" % i; e = "( %s . %s )" % (a[0], b[0])
        f = rng.choice(["jn", "jt"])
        if f == "jt": a, b = b, a; e = "( %s . %s )" % (b[0], a[0])
        def syn(x):
            if x == "a": return ["wa"]
            w = x.split(); d = 0
            for j, c in enumerate(w):
                if c == "(": d += 1
                elif c == ")": d -= 1
                elif c == "." and d == 1: return syn(" ".join(w[1:j])) + syn(" ".join(w[j + 1:-1])) + ["wj"]
        t += "%s $p |- %s $= %s %s %s %s %s $.\n" % (l, e, " ".join(syn(a[0])), " ".join(syn(b[0])), a[1], b[1], f)
        exs.append((e, l))
        if len(exs) > 9: exs.append(("a", "ax"))
    # chain without growth of the expressions
    for i in range(rng.randint(0, 80)): t += "c%d $p |- ( a . a ) $= wa wa %s %s jn $.\n" % (i, *(("ax", "ax") if i == 0 else ("x%d" % (i - 1), "x%d" % (i - 1)))) + "${ y%d.1 $e |- ( a . a ) $. y%d $p |- a $= ax $. $}\nx%d $p |- a $= c%d y%d $.\n" % (i, i, i, i, i)
    return t

def make(rng):
    if rng.random() < .02: return doubling(rng)
    k = rng.random()
    if k < .2: text = scopegen.make(rng, comments=rng.random() < .3, bad=False); pr = {}
    elif k < .24: text, pr, _ = c02.big_db(rng)
    else: text, g, pr = mmgen.make_db(rng, None, comments=rng.random() < .4, desc=rng.random() < .7, nth=rng.randint(2, 25))
    db = mmref.parse(text); repl = {}
    if rng.random() < .5:
        for s in db.stmts[1:]:
            if s.type != "p" or s.label not in pr or rng.random() < .75: continue
            d, root = pr[s.label]
            if rng.random() < .6: m = ("unknown",) + mutate.dag_clone_replace(d, root, (lambda i: lambda nd, l, k, o: nd.add("?") if o == i else None)(rng.randrange(len(d.nodes))))
            else: m = mutate.mut_dag(rng, db, s, d, root)
            if m is None: continue
            f = rng.choice(mmgen.FMTS)
            try: mmref.rpn_of(m[1], m[2], 3000)
            except mmref.ProofError: f = "compressed"
            repl[s.label] = mmgen.render_proof(db, s, m[1], m[2], f, rng)
        text = subst_proofs(text, repl)
    if rng.random() < .3:     # comments inside proofs
        c = rng.choice(["$( a ) b $)", "$( see %s $)" % rng.choice(["a ( b", ") ) x", "ax-1", "plain"]), "$( ( $)"])
        db = mmref.parse(text); edits = []
        for s in db.stmts[1:]:
            if s.type == "p" and rng.random() < .3:
                a, b = s.proof_text; seg = text[a:b]
                if s.proof[:1] == ["("]:
                    e = seg.find(")"); 
                    if "$(" in seg or e < 0: continue
                    lim = rng.choice([e, len(seg)])
                else: lim = len(seg)
                sp = [m.start() for m in re.finditer(r"\s", seg[:lim])]
                if sp and "$(" not in seg: edits.append((a + rng.choice(sp), " " + c))
        for p, t in sorted(edits, reverse=True): text = text[:p] + t + text[p:]
    return text

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        text = make(rng)
        try: db = mmref.parse(text)
        except mmref.MMError: res.count("skipped"); return
        G = Graph(db, text)
        P = [s.label for s in db.stmts[1:] if s.type == "p"]; A = [s.label for s in db.asserts()]; H = [s.label for s in db.stmts[1:] if s.type in "ef"]
        if not P: return
        sc.write("a.mm", text)
        cmds = ["read a.mm"]; todo = []
        saved = rng.random() < .2
        if saved: cmds += ["save proof %s%s" % (rng.choice(["*", rng.choice(P)]), rng.choice(["/compressed", "/packed"] if max(len(db.stmts), 0) > 400 else ["/compressed", "/normal", "/packed", "/explicit", "/explicit/packed"])), "write source b.mm"]
        base = len(cmds)
        for _ in range(rng.randint(2, 10)):
            k = rng.random(); pat = rnd_pat(rng, P)
            if len(P) > 30 and "*" in pat: pat = rng.choice(P)
            if k < .3:
                o = {"ess": rng.random() < .4, "ax": rng.random() < .3, "match": rnd_pat(rng, A) if rng.random() < .3 else None, "to": rnd_pat(rng, A) if rng.random() < .35 else None}
                sw = [x for x in ("/essential" if o["ess"] else "", "/axioms" if o["ax"] else "", "/match %s" % o["match"] if o["match"] else "", "/to %s" % o["to"] if o["to"] else "") if x]
                rng.shuffle(sw); cmds.append("show trace_back %s %s" % (pat, " ".join(sw))); todo.append(("trace", pat, o))
            elif k < .5:
                o = {"ess": rng.random() < .4, "depth": rng.choice([0, 0, 1, 2, 3, 4])}
                cmds.append("show trace_back %s /tree%s%s" % (pat, " /essential" if o["ess"] else "", " /depth %d" % o["depth"] if o["depth"] else "")); todo.append(("tree", pat, o))
            elif k < .7:
                o = {"ess": rng.random() < .4}
                cmds.append("show trace_back %s /count_steps%s" % (pat, " /essential" if o["ess"] else "")); todo.append(("count", pat, o))
            else:
                o = {"rec": rng.random() < .4, "all": rng.random() < .2}
                pat = rnd_pat(rng, A + H if rng.random() < .3 else A)
                cmds.append("show usage %s%s%s" % (pat, rng.choice([" /recursive"]) if o["rec"] else rng.choice(["", " /direct"]), " /all" if o["all"] else "")); todo.append(("usage", pat, o))
        s = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        if drive.READ_OK not in s.seg(0): return res.bad("read", s.seg(0), files, cmds)
        if saved:
            try: text = sc.read("b.mm"); db = mmref.parse(text)
            except mmref.MMError: return res.bad("saved", "the source written after SAVE PROOF is not well formed", files, cmds)
            G = Graph(db, text); res.count("after-save")
        for i, (kind, pat, o) in enumerate(todo):
            seg = ERRS.sub("", s.seg(i + base) or "")
            def bad(k, d): res.bad(k, "%s\n%s\n--- output:\n%s" % (cmds[i + base], d, seg[:3000]), files, cmds[:base] + [cmds[i + base]])
            if kind == "usage":
                sel = [x.label for x in db.stmts[1:] if x.label and wild(pat, x.label) and (o["all"] or x.type in "ap" or not ("*" in pat or "?" in pat))]
                got = re.findall(r'(?m)^Statement "(\S+)" (?:is not referenced in the proof of any (statement)\.|(is directly referenced in|directly or indirectly affects) the proofs? of (\d+) statements?:)\n((?:  .*\n)+)', seg)
                if [x[0] for x in got] != sel: bad("usage-list", "reported on %s, expected %s" % ([x[0] for x in got], sel)); continue
                for l, none, how, n, lst in got:
                    res.ev(("usage", o["rec"], G.users(l, o["rec"]))); res.count("usage")
                    u = G.users(l, o["rec"]); g = labels(lst.rstrip("\n").replace("\n", " "))
                    if bool(none) != (not u) or g != u or (n and int(n) != len(u)): bad("usage" + ("-recursive" if o["rec"] else ""), "%s: used by %s, reported %s" % (l, u, g))
                    if how and ("indirectly" in how) != o["rec"]: bad("usage-kind", how)
                continue
            sel = [p for p in P if wild(pat, p)]
            if kind == "trace":
                got = re.findall(r'(?m)^(The proof of statement|Statement) "(\S+)" (uses the following earlier statements|assumes the following axioms \(\$a statements\)|traces back to "(.*)" via):\n(.*\n(?:(?!.*Warning|\?Error|The proof of|Statement).*\n)*?)(?:Warning: The following traced statement\(s\) were not proved:\n(.*)\n)?(?=\?Error|The proof of|Statement|\Z|MM)', seg)
                if [x[1] for x in got] != sel: bad("trace-list", "reported on %s, expected %s" % ([x[1] for x in got], sel)); continue
                for _, l, how, to, lst, unp in got:
                    ok = None
                    if o["to"]: ok = set(x for x in A if wild(o["to"], x)); ok |= set(y for x in list(ok) for y in G.users(x, True))
                    w, unk = G.trace(l, o["ess"], ok)
                    if l not in unk and "?" in G.sel(l, o["ess"]): unk.add(l)
                    w = sorted((x for x in w if (not o["match"] or wild(o["match"], x)) and (not o["ax"] or G.type(x) == "a")), key=lambda x: G.ord[x])
                    res.ev(("trace", o["ess"], o["ax"], o["match"], o["to"], w)); res.count("trace"); res.count("trace-to", o["to"] is not None)
                    g = labels(lst.split("\n?Error")[-1].strip("\n").split("\n")[-1])
                    if g != w: bad("trace" + ("-to" if o["to"] else "") + ("-match" if o["match"] else ""), "%s: missing %s, superfluous %s" % (l, sorted(set(w) - set(g)), sorted(set(g) - set(w))) if set(g) != set(w) else "order: %s instead of %s" % (g, w))
                    for x in lst.split():
                        m = re.fullmatch(r"(\S+)\(\$(\w)\)", x)
                        if m and G.type(m.group(1)) != m.group(2): bad("trace-type", x)
                    if set(unp.split()) != unk: bad("unproved", "%s: unproved statements %s, reported %s" % (l, sorted(unk), unp.split()))
            elif kind == "count":
                got = re.findall(r"The statement's actual proof has (\d+) steps\.  Backtracking, a total of (\d+) different subtheorems are used\.  The statement and subtheorems have a total of (\d+) actual steps\.  If subtheorems used only once were eliminated, there would be a total of (\d+) subtheorems, and the statement and subtheorems would have a total of (-?\d+) steps\.  The proof would have (\d*)(?: =~ (\S+) x 10\^(\d+))? steps if fully expanded back to axiom references\.  The maximum path length is (-?\d+)\.  A longest path is:  (.*) \.", seg)
                if len(got) != len(sel): bad("count-list", "%d reports, expected %d" % (len(got), len(sel))); continue
                for l, t in zip(sel, got):
                    w = G.counts(l, o["ess"]); res.ev(("count", w)); res.count("count")
                    names = ["actual steps", "subtheorems", "total steps", "multiple-use subtheorems", "steps without single-use subtheorems"]
                    for nm, x, y in zip(names, w, t):
                        if x != int(y): bad("count:" + nm, "%s: %s is %s, reported %s" % (l, nm, x, y))
                    if w[5] is not None:
                        if str(w[5]) != t[5]: bad("count:expanded", "%s: expanded steps %s, reported %s" % (l, w[5], t[5]))
                        if t[6] and abs(float(t[6]) * 10 ** int(t[7]) / w[5] - 1) > .08: bad("count:approx", "%s: %s is not %s x 10^%s" % (l, w[5], t[6], t[7]))
                        res.count("expanded>1e6", w[5] > 10 ** 6)
                    else: res.count("expanded-not-judged")
                    if w[6] is not None:
                        path = t[9].split(" <- ")
                        if int(t[8]) != w[6] or len(path) != w[6] + 1: bad("count:path-length", "%s: longest path %d, reported %s: %s" % (l, w[6], t[8], t[9]))
                        if path[0] != l: bad("count:path", t[9])
                        for a, b in zip(path, path[1:]):
                            if G.type(a) != "p" or b not in G.sel(a, o["ess"]): bad("count:path", "%s is not used by %s" % (b, a)); break
            else:
                parts = re.split(r'The proof tree traceback for statement "(\S+)" follows\.  The statements used by each proof are indented one level in, below the statement being proved\.  Hypotheses are not included\.\n', seg)
                if parts[1::2] != sel: bad("tree-list", "%s instead of %s" % (parts[1::2], sel)); continue
                for l, body in zip(parts[1::2], parts[2::2]):
                    if any(v is None for v in (G.steps[x] for x in G.trace(l, False)[0] | {l} if G.type(x) == "p")): res.count("tree-bad-proof"); continue
                    w = G.tree(l, o["ess"], o["depth"]); g = parse_tree(body)
                    res.ev(("tree", o["ess"], o["depth"], [x[:3] for x in w if x[0] == "node"])); res.count("tree")
                    g = [b[:4] + (None,) if a[0] == b[0] == 'node' and a[4] is None else b for a, b in zip(w, g)] + g[len(w):]
                    if g != w:
                        j = next((j for j, (a, b) in enumerate(zip(w, g)) if a != b), min(len(w), len(g)))
                        bad("tree", "%s: line %d should be %s but is %s" % (l, j, w[j:j + 1], g[j:j + 1]))
        if res.sample is None: res.sample = {"commands": cmds[1:]}

if __name__ == "__main__":
    c = harness.Check("C15", assumptions=["proofs are decoded by lib/mmref.py; /ESSENTIAL leaves out the steps inside the proof of a $f hypothesis"])
    ctx = {"bin": harness.build("plain")}
    c.run("graph", case, c.n(5000, 60000), ctx, "random databases (valid, incomplete and wrong proofs, all formats, comments inside proofs); random TRACE_BACK (/TREE, /COUNT_STEPS, /TO, /MATCH, /AXIOMS, /ESSENTIAL) and USAGE commands; every list, tree and number compared with the graph of the decoded proofs")
    c.finish(min_evals=1000)
