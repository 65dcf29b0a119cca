#!/usr/bin/env python3
"""C30: IMPROVE, UNIFY and DELETE FLOATING_HYPOTHESES do what they promise.
Proof Assistant sessions over proofs whose reference proof is known.  After every command a monitor compares the proof in
progress before and after: no known formula is altered and work variables are replaced consistently; DELETE
FLOATING_HYPOTHESES removes exactly the proofs of floating hypotheses; after UNIFY ALL no step is left whose formula has
exactly one way to match; after IMPROVE every unknown step with a known formula that has a proof from hypotheses and
earlier statements without essential hypotheses (searched by an independent parser) is proved."""
from verify_common import *
import random, sys, padrive, pa
import c13
sys.setrecursionlimit(20000)
WORK = re.compile(r"\$\d+\Z")
def ground(m): return not any(WORK.match(t) for t in m)
GIVEUP = re.compile(r"Exceeded trial limit|possible infinite loop|timed out|Unification timed|Hit limit")

class Search:
    """provability of a formula from the frame's hypotheses and earlier statements without $e"""
    def __init__(self, x):
        self.db, self.s = x.db, x.s; self.memo = {}; self.work = 0
        self.hyps = set(tuple(h.math) for h in x.s.mhyps + [h for h in x.s.ohyps if h.type == "f"])
        self.rules = {}
        for p in x.prior:
            if any(h.type == "e" for h in p.mhyps): continue
            vs = {h.math[1]: h.math[0] for h in p.mhyps}
            self.rules.setdefault(p.math[0], []).append((p.math[1:], vs))
    def prove(self, f):
        """True, False, or None when the search is given up"""
        f = tuple(f)
        if f in self.hyps: return True
        if f in self.memo: return self.memo[f]
        self.memo[f] = None                      # in progress: a circular proof is no proof
        r = False; circ = False
        for pat, vs in self.rules.get(f[0], []):
            v = self.match(pat, f[1:], {}, vs)
            if v: r = True; break
            if v is None: circ = True
        if r is False and circ: del self.memo[f]; return None
        self.memo[f] = r; return r
    def match(self, pat, text, sub, vs):
        self.work += 1
        if self.work > 200000: return None
        if not pat: return not text
        t = pat[0]
        if t not in vs: return self.match(pat[1:], text[1:], sub, vs) if text and text[0] == t else False
        unk = False
        if t in sub:
            k = len(sub[t])
            return self.match(pat[1:], text[k:], sub, vs) if text[:k] == sub[t] else False
        for k in range(1, len(text) - (len(pat) - 1) + 1):
            p = self.prove((vs[t],) + tuple(text[:k]))
            if p is False: continue
            q = self.match(pat[1:], text[k:], dict(sub, **{t: text[:k]}), vs)
            if p and q: return True
            if p is None and q is not False or q is None: unk = True
        return None if unk else False

def matches(pat, text, cap=2):
    """number of ways (up to cap) to replace the work variables of pat by one or more symbols giving text"""
    n = [0]; left = [20000]
    def go(i, j, sub):
        left[0] -= 1
        if n[0] >= cap or left[0] < 0: return
        if i == len(pat):
            if j == len(text): n[0] += 1
            return
        t = pat[i]
        if not WORK.match(t):
            if j < len(text) and text[j] == t: go(i + 1, j + 1, sub)
            return
        if t in sub:
            k = len(sub[t])
            if text[j:j + k] == sub[t]: go(i + 1, j + k, sub)
            return
        for k in range(1, len(text) - j - (len(pat) - i - 1) + 1): go(i + 1, j + k, dict(sub, **{t: text[j:j + k]}))
    go(0, 0, {})
    return None if left[0] < 0 else n[0]

def instance(old, new, sub):
    """the new formula is the old one with work variables replaced, consistently with sub; possible replacements"""
    if ground(old): return old == new
    return matches(old, new) != 0 if not sub else matches([y for t in old for y in (sub[t] if t in sub else [t])], new) != 0

class Watch:
    def __init__(self, x): self.x = x; self.db = x.db; self.search = Search(x)
    def snap(self): return self.x.tree, self.x.lines
    def floating(self, node):
        """positions of the subproofs of floating hypotheses"""
        out = []
        def go(n):
            if n.label == "?": return
            st = self.db.by_label[n.label]
            if st.type in "ef": return
            for h, k in zip(st.mhyps, n.kids):
                if h.type == "f": out.append(k)
                else: go(k)
        go(node); return out
    def pairs(self, a, b):
        """corresponding nodes of the proof before and after"""
        out = [(a, b)]
        if a.label == b.label and len(a.kids) == len(b.kids):
            for p, q in zip(a.kids, b.kids): out += self.pairs(p, q)
        return out
    def do(self, c):
        x = self.x; old, L = self.snap()
        if not x.do(c): return False
        if x.viol or x.tree is None: return not x.viol
        new, M = self.snap(); res = x.res; k = " ".join(c.split()[:2]); out = x.out
        pr = self.pairs(old, new)
        res.ev((k, hash(x.state), len(L)))
        if k.startswith("improve") or k.startswith("unify") or k.startswith("let ") or k.startswith("assign"):
            gone = [(a, b) for a, b in pr if a.label != "?" and a.label != b.label and L[a.pos - 1].source is None and "/subproofs" not in c]
            if gone:
                a, b = gone[0]; x.bad("C30", "step-replaced", "%r replaced step %d, which was %s, by %s" % (c, a.pos, a.label, b.label)); return True
        if k.startswith(("improve", "unify", "assign", "delete floating", "let variable")):
            for a, b in pr:
                f, g = L[a.pos - 1].target, M[b.pos - 1].target
                res.count("formulas compared")
                if ground(f):
                    if f != g: x.bad("C30", "formula-altered", "%r changed the formula of step %d from %s to %s" % (c, a.pos, " ".join(f), " ".join(g))); return True
                elif matches(f, g) == 0:
                    x.bad("C30", "formula-not-instance", "%r changed the formula of step %d from %s to %s, which is no instance of it" % (c, a.pos, " ".join(f), " ".join(g))); return True
        if k == "delete floating_hypotheses":
            fl = self.floating(old); pos = {n.pos: n for n in fl}
            def cut(n): return "?" if n.pos in pos else (n.label, [cut(q) for q in n.kids])
            def shape(n): return "?" if n.label == "?" else (n.label, [shape(q) for q in n.kids])
            def norm(t): return t if t == "?" else ("?" if t[0] == "?" else (t[0], [norm(q) for q in t[1]]))
            res.count("floating hypotheses deleted", len(fl))
            if norm(cut(old)) != shape(new): x.bad("C30", "delete-floating", "DELETE FLOATING_HYPOTHESES left %s of %s" % (x.rpn, self.labels(old))); return True
        if (c.startswith("unify all") or c.startswith("assign") and "no_unify" not in c and "possible unifications" not in out and all(m.source is None for m in L)) and "interactive" not in c and not GIVEUP.search(out):
            for m in M:
                if m.source is None: continue
                f, g = m.target, m.source
                if ground(g): f, g = g, f
                if not ground(f): continue
                n = matches(g, f); res.count("mismatches left by UNIFY ALL or ASSIGN")
                if n == 1: x.bad("C30", "unify-left", "%r left step %d with %s = %s, which match in exactly one way" % (c, m.num, " ".join(m.target), " ".join(m.source))); return True
                if n == 0: res.count("steps that cannot match")
        if c.startswith("improve") and not GIVEUP.search(out):
            which = None if c.startswith("improve all") else self.last
            for a, b in pr:
                if a.label != "?" or not ground(L[a.pos - 1].target) or which and a.pos != which: continue
                f = L[a.pos - 1].target
                res.count("unknown steps with known formula")
                if b.label != "?": res.count("proved by IMPROVE"); continue
                self.search.work = 0
                r = self.search.prove(f)
                res.count({True: "", False: "correctly left unknown", None: "left unknown, search given up"}[r] or "wrongly left unknown")
                if r: x.bad("C30", "improve-missed", "%r did not prove step %d, %s, which follows from hypotheses and earlier statements without essential hypotheses\n%s" % (c, a.pos, " ".join(f), out[-600:])); return True
        return True
    def labels(self, n): return [l for q in n.kids for l in self.labels(q)] + [n.label]

def ref_math(x, r): return x.refx[r] if r < len(x.refx) else None

def quote(t):
    for q in "\"'":
        if q not in t: return q + t + q

def case(res, rng, ctx):
    st = c13.setup(rng, small=rng.choice([150, 400]))
    if st is None: return
    text, db, s, dag, root = st
    mode = rng.choice(["full", "full", "build", "build", "build", "loose"])
    if mode == "full": text = subst_proofs(text, {s.label: mmgen.render_proof(db, s, dag, root, rng.choice(["normal", "compressed"]), rng)})
    elif rng.random() < .7: text = subst_proofs(text, {s.label: "?"})
    db = mmref.parse(text); s = db.by_label[s.label]
    floats = set(h.math[0] for x in db.stmts[1:] if x.type == "f" for h in [x])
    with drive.Scratch() as sc:
        sc.write("t.mm", text)
        x = padrive.Run(res, rng, ctx["asan"] if rng.random() < .08 else ctx["plain"], sc, text, db, s, dag, root)
        try:
            if not x.start(): return
            w = Watch(x); ok = True
            if mode == "full":
                if rng.random() < .3:
                    for _ in range(rng.randint(1, 3)):
                        y = rng.choice(x.lines).num
                        if ok: ok = w.do("delete step %d" % y)
                if rng.random() < .45 and ok: ok = w.do(rng.choice(["initialize all", "initialize all", "initialize step %d" % rng.choice(x.lines).num])) and w.do("unify all")
                if ok and not x.viol: ok = w.do("delete floating_hypotheses")
                if ok and not x.viol and rng.random() < .3: ok = w.do("unify all")
                if ok and not x.viol: ok = w.do("improve all" + rng.choice(["", "", "", " /depth 1", " /2", " /3"]))
            else:
                n = 0; lets = rng.random() < .75
                while ok and not x.viol and n < 80:
                    n += 1
                    g = [q for q in x.guided() if dag.nodes[q[2]][0] in db.by_label and (ref_math(x, q[2]) or [""])[0] not in floats]
                    if not g: break
                    pos, lab, ref = rng.choice(g)
                    f = ref_math(x, ref)
                    if f and (lets if mode == "build" else rng.random() < .4) and not ground(x.lines[pos - 1].target):
                        qf = quote(" ".join(f))
                        if qf and not w.do("let step %d = %s" % (pos, qf)): break
                        if x.viol: break
                    if rng.random() < .25: w.last = pos; ok = w.do("improve %d%s" % (pos, rng.choice(["", "", " /depth 1", " /2"])))
                    else: ok = w.do("assign %d %s /override%s" % (pos, lab, rng.choice(["", " /no_unify"])))
                    if ok and not x.viol and rng.random() < .2: ok = w.do("unify all")
                    if ok and not x.viol and rng.random() < .15: ok = w.do("improve all")
                if ok and not x.viol: ok = w.do("unify all")
                if ok and not x.viol and rng.random() < .3: ok = w.do("delete floating_hypotheses")
                if ok and not x.viol: ok = w.do("improve all" + rng.choice(["", "", " /2"]))
            if ok and not x.viol:
                res.count("sessions " + mode); res.count("completed " + mode, "?" not in x.rpn)
                if "?" not in x.rpn and not (v := mmref.verify(db, s, x.rpn)).kind in ("ok", "dv"): x.bad("C30", "wrong-proof", "the completed proof %s is not a proof of %s (%s)" % (" ".join(x.rpn), s.label, v.kind))
        except pa.Died: pass
        ss = x.p.session()
        if not res.check_session(ss, x.files, "proof assistant session"): return
        x.report({"C30"})
    if res.sample is None: res.sample = {"mode": mode, "commands": x.p.cmds[:12]}

# ---- syntax built from random grammars: infix without parentheses, postfix, overlapping symbols
def grammar(rng):
    """a database of syntax axioms (ambiguous ones included) and one theorem that is pure syntax"""
    types = ["wff", "class", "setv"][:rng.choice([1, 2, 2, 3])]
    ops = ["+", "*", "!", "(", ")", "[", "]", "-", "/."]; rng.shuffle(ops)
    ops = ops[:rng.randint(2, 6)]
    vs = {t: ["%s%d" % (t[0], i) for i in range(rng.randint(2, 4))] for t in types}
    lines = ["$c %s %s $." % (" ".join(types), " ".join(ops)), "$v %s $." % " ".join(v for t in types for v in vs[t])]
    fl = [(v, t) for t in types for v in vs[t]]; rng.shuffle(fl)
    for v, t in fl: lines.append("f%s $f %s %s $." % (v, t, v))
    rules = []                                  # (result type, pattern of ("v", type) / constants)
    for i in range(rng.randint(2, 7)):
        t = rng.choice(types if len(types) < 3 else types[:2]); pat = []
        shape = rng.choice(["infix", "infix", "par", "post", "pre", "mixed", "chain", "const"])
        nt = lambda: rng.choice(types)
        def var(ty):
            free = [v for v in vs[ty] if ("v", v) not in pat or rng.random() < .1]
            return ("v", rng.choice(free)) if free else ("v", rng.choice(vs[ty]))
        op = rng.choice(ops)
        if shape == "chain":
            u = [y for y in types if types.index(y) > types.index(t)]
            if not u: shape = "const"
            else: pat = [var(rng.choice(u))]
        if shape == "infix":
            for q in (nt(), op, nt()): pat.append(q if q in ops else var(q))
        elif shape == "par":
            a, b = rng.sample(ops, 2)
            for q in (a, nt(), op, nt(), b): pat.append(q if q in ops else var(q))
        elif shape == "post":
            for q in (nt(), op): pat.append(q if q in ops else var(q))
        elif shape == "pre":
            for q in (op, nt()): pat.append(q if q in ops else var(q))
        elif shape == "mixed":
            for q in (nt(), op, nt(), rng.choice(ops), nt()): pat.append(q if q in ops else var(q))
        elif shape == "const": pat = [rng.choice(ops)]
        rules.append((t, pat))
        lines.append("ax%d $a %s %s $." % (i, t, " ".join(q if isinstance(q, str) else q[1] for q in pat)))
    typ = {v: t for v, t in fl}
    def term(t, d):
        c = [r for r in rules if r[0] == t and (d > 0 or not any(isinstance(q, tuple) for q in r[1]))]
        if d <= 0 or not c or rng.random() < .15: return [rng.choice(vs[t])]
        r = rng.choice(c); sub = {}
        out = []
        for q in r[1]:
            if isinstance(q, str): out.append(q)
            else:
                if q[1] not in sub: sub[q[1]] = term(typ[q[1]], d - 1)
                out += sub[q[1]]
        return out
    t = rng.choice(types)
    for _ in range(20):
        m = term(t, rng.randint(1, 4))
        if 2 <= len(m) <= 14: break
    if len(m) > 14: m = m[:14]
    if rng.random() < .3:                       # usually not derivable
        k = rng.randrange(len(m)); m = m[:k] + [rng.choice(ops + [v for v, _ in fl])] + m[k + rng.randint(0, 1):]
    if rng.random() < .2: u = rng.choice(types); lines.append("${ h $e %s %s $." % (u, " ".join(term(u, 2))))  # (the unifier assumes that formulas follow the syntax axioms)
    lines.append("th $p %s %s $= ? $." % (t, " ".join(m)))
    if any(l.startswith("${") for l in lines): lines.append("$}")
    return "\n".join(lines) + "\n", len(m)

class Frame: pass
def syntax(res, rng, ctx):
    text, n = grammar(rng)
    db = mmref.parse(text); s = db.by_label["th"]
    x = Frame(); x.db = db; x.s = s; x.prior = [p for p in db.stmts[1:] if p.type in "ap" and p.num < s.num]
    se = Search(x); want = se.prove(tuple(s.math))
    how = rng.choice(["improve all", "improve all", "improve first", "improve last", "improve 1", "improve all /2", "improve all /3", "improve all /depth 2"])
    fmt = rng.choice(["normal", "compressed", "packed", "explicit"])
    cmds = ["read t.mm", "prove th", how, "show new_proof /unknown", "save new_proof /" + fmt, "exit /force", "verify proof th", "write source out.mm", "erase", "y"]
    with drive.Scratch() as sc:
        sc.write("t.mm", text)
        ss = drive.run(ctx["asan"] if rng.random() < .06 else ctx["plain"], cmds, sc.d, timeout=60)
        files = {"t.mm": text}
        if not res.check_session(ss, files, "IMPROVE on a syntax theorem"): return
        out = sc.read("out.mm")
    imp = ss.seg(2) or ""
    res.ev((how.split("/")[0], want, n, hash(imp))); res.count("syntax theorems")
    if GIVEUP.search(imp): res.count("search limit reported"); return
    if want is None: res.count("search given up"); return
    try: db2 = mmref.parse(out); v = mmref.verify(db2, db2.by_label["th"]).kind
    except Exception: res.bad("no-file", "no readable file after %s" % cmds, files, ss.cmds); return
    done = v in ("ok", "dv")
    res.count("syntax theorems proved", done); res.count("syntax theorems correctly left", v == "incomplete" and not want)
    if v not in ("ok", "dv", "incomplete"): res.bad("wrong-proof", "%r made a proof of th that is %s" % (how, v), files, ss.cmds)
    elif want and not done: res.bad("improve-missed", "%r did not prove th, %s, which follows from hypotheses and earlier statements without essential hypotheses\n%s" % (how, " ".join(s.math), imp[-500:]), files, ss.cmds)
    elif done and not want and not any(h.type == "e" for p in x.prior for h in p.mhyps): res.bad("search-disagrees", "%r proved th, %s, which the reference search found impossible" % (how, " ".join(s.math)), files, ss.cmds)
    if res.sample is None: res.sample = {"database": text, "command": how, "provable": want}

if __name__ == "__main__":
    c = harness.Check("C30", assumptions=["a step is left out of the completeness claim when the program reports that a search or unification limit was reached"])
    ctx = {"plain": harness.build("plain"), "asan": harness.build("asan")}
    c.run("session", case, c.n(10000, 50000), ctx, "random Proof Assistant sessions (full proofs cut at their floating hypotheses; proofs built step by step from a known proof) watched command by command")
    c.run("syntax", syntax, c.n(12000, 120000), ctx, "random grammars (infix without parentheses, postfix, chains, repeated variables): IMPROVE on a formula, provable or not, against an independent search")
    c.finish(min_evals=1000)
