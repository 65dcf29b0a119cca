#!/usr/bin/env python3
"""C14: MINIMIZE_WITH only ever shortens, within its restrictions; EXPAND does exactly what it says."""
from verify_common import *
import random, sys, fnmatch, padrive, pa, deco
import c13, c15
from mmref import Dag
sys.setrecursionlimit(20000)

class N:
    """proof tree node with size and formula (None if unknown)"""
    def __init__(self, db, label, kids):
        self.label = label; self.kids = kids; self.size = 1 + sum(k.size for k in kids); self.f = None; self.mark = None
        if label == "?" or any(k.f is None for k in kids): return
        x = db.by_label[label]
        if x.type in "ef": self.f = tuple(x.math); return
        sg = {}
        for h, k in zip(x.mhyps, kids):
            if h.type == "f":
                if k.f[0] != h.math[0]: return
                sg[h.math[1]] = list(k.f[1:])
        for h, k in zip(x.mhyps, kids):
            if h.type == "e" and tuple(mmref.subst(h.math, sg)) != k.f: return
        self.f = tuple(mmref.subst(x.math, sg))
    def rpn(self, out=None):
        if out is None: out = []
        for k in self.kids: k.rpn(out)
        out.append(self.label); return out
    def walk(self):
        for k in self.kids: yield from k.walk()
        yield self

def build(db, nd): return N(db, nd.label, [build(db, k) for k in nd.kids])
class TooBig(Exception): pass

def expand(db, t, labels, limit=1500):
    """replace every use of these theorems by their proofs; None if one of the proofs is unusable"""
    bodies = {}
    budget = [limit]
    def body(l):
        if l not in bodies:
            s = db.by_label[l]
            bodies[l] = pa.tree(db, mmref.rpn_of(*mmref.decode(db, s)[:2], limit))
        return bodies[l]
    def inst(nd, l, mp):
        if nd.label in mp: return mp[nd.label]
        if nd.label != "?" and db.by_label[nd.label].type == "f": return N(db, "?", [])      # a variable of that proof only
        budget[0] -= 1
        if budget[0] < 0: raise TooBig()
        return conv(nd.label, [inst(k, l, mp) for k in nd.kids])
    def conv(label, kids):
        if label in labels:
            s = db.by_label[label]
            r = inst(body(label), label, {h.label: k for h, k in zip(s.mhyps, kids)})
            if r.mark is None and r.size < limit:
                r2 = N(db, r.label, r.kids); r2.mark = (label, kids); return r2
            return r
        n = N(db, label, kids)
        if n.size > limit: raise TooBig()
        return n
    def go(t): return conv(t.label, [go(k) for k in t.kids])
    try: return go(t)
    except mmref.ProofError: return None

def essential(db, t):
    """(label, formula) of the steps in essential position"""
    out = set()
    def go(n):
        if n.label == "?": return
        out.add((n.label, n.f))
        x = db.by_label[n.label]
        if x.type in "ef": return
        for h, k in zip(x.mhyps, n.kids):
            if h.type == "e": go(k)
    go(t); return out

def matches(db, l, pat):
    for p in pat.split(","):
        if "~" in p:
            a, b = p.split("~")
            na = db.by_label[a].num if a else 0; nb = db.by_label[b].num if b else 10**9
            if na <= db.by_label[l].num <= nb: return True
        elif fnmatch.fnmatchcase(l, p): return True
    return False

class Min(padrive.Run):
    def size(self):
        o = self.p.cmd("show new_proof /compressed")
        m = re.search(r"put it in the source file:\n(.*?)\$\.\n-+The proof of", o, re.S)
        if not m: return None
        t = m.group(1).split()
        if t[0] != "(": return None
        k = t.index(")")
        return len(" ".join(t[:k + 1])) + 1 + len("".join(t[k + 1:]))
    def prepare(self):
        db = self.db
        self.g = c15.Graph(db, self.text)
        self.comments = {}
        self.usage = set(l for l in self.marked)
        self.boxstart = None; self.boxstmt = None
        if "mathbox" in db.by_label:
            self.boxstmt = db.by_label["mathbox"].num
            # start of the mathbox the theorem is in
            cur = None
            heads = [m.start() for m in re.finditer("Mathbox for", self.text)]
            st = []
            for h in heads: st.append(min(s.num for s in db.stmts[1:] if s.kpos > h))
            cur = [x for x in st if x <= self.s.num]
            self.boxstart = cur[-1] if cur else self.boxstmt
    def axioms(self, labels):
        """axioms the essential steps depend on"""
        out = set()
        for l in labels:
            if self.db.by_label[l].type in "ef": continue
            if self.db.by_label[l].type == "a": out.add(l)
            else: out |= set(x for x in self.g.trace(l, True)[0] if self.db.by_label[x].type == "a")
        return out
    def do_expand(self, pat):
        db = self.db
        t = build(db, self.tree)
        L = set(l for l in self.rpn_all(t) if db.by_label[l].type == "p" and matches(db, l, pat))
        # labels in the bodies can match too
        L |= set(s.label for s in db.stmts[1:self.s.num] if s.type == "p" and matches(db, s.label, pat))
        if any(self.g.steps[l] is None for l in L): return True
        try: w = expand(db, t, L)
        except TooBig: self.res.count("too big to expand"); return True
        if w is None: return True
        before = list(self.rpn)
        if not self.do("expand %s" % pat): return False
        if self.viol: return False
        self.res.ev(("expand", w.rpn() != before, "?" in w.rpn(), len(L)))
        if self.rpn != w.rpn():
            self.bad("C14", "expand", "EXPAND %s of %s gives %s; expected %s" % (pat, " ".join(before), " ".join(self.rpn), " ".join(w.rpn()))); return False
        if w.rpn() != before: self.res.count("expanded")
        self.exp = w
        return True
    def rpn_all(self, t): return [n.label for n in t.walk() if n.label != "?"]
    def must(self, t, l, over):
        """a step of the expanded proof that the theorem l shortens for certain"""
        db = self.db; s = db.by_label[l]
        if l in self.usage and not over or s.mdv: return None      # the first match found may violate $d
        if self.boxstmt and self.boxstmt <= s.num < self.boxstart: return None
        # a variable of the hypotheses alone: the first match may be a longer one
        if any(h.type == "f" and h.math[1] not in s.math for h in s.mhyps): return None
        mine = set(tuple(h.math) for h in self.s.mhyps if h.type == "e")
        for n in t.walk():
            if n.mark is None or n.mark[0] != l or n.f is None: continue
            need = 1; okk = True
            inner = {}
            for q in n.walk():
                if q is not n and q.f is not None: inner[q.f] = max(inner.get(q.f, 0), q.size)
            for h, k in zip(s.mhyps, n.mark[1]):
                if h.type == "f":
                    need += max(k.size, inner.get(k.f, 0))
                elif k.f is None: okk = False
                elif k.f in inner or k.f in mine: need += max(inner.get(k.f, 0), 1)
                else: okk = False
            if okk and n.size > need: return n
        return None
    def minimize(self, pat, q, o):
        db, res = self.db, self.res
        t = build(db, self.tree); brpn = list(self.rpn); b_ess = essential(db, t); bsize = self.size()
        bv = mmref.verify(db, self.s, brpn) if "?" not in brpn else None
        if not self.do("minimize_with %s%s" % (pat, q)): return False
        if self.viol: return False
        out = self.out
        t2 = build(db, self.tree); a_ess = essential(db, t2); asize = self.size()
        changed = self.rpn != brpn
        res.ev(("min", changed, tuple(sorted(o)), len(brpn)))
        res.count("minimized" if changed else "not minimized")
        if not changed and "may_grow" not in o and re.search(r'(?m)^Proof of "', out): self.bad("C14", "claims", "MINIMIZE_WITH reports a new proof but the proof is unchanged:\n" + out); return False
        if changed and "results were used" not in out and not re.search(r'(?m)^Proof of "', out): self.bad("C14", "silent", "MINIMIZE_WITH changed the proof without saying so:\n" + out); return False
        if bsize is None or asize is None: self.bad("C14", "unreadable", "SHOW NEW_PROOF /COMPRESSED cannot be read"); return False
        if changed and "may_grow" not in o:
            if asize > bsize: self.bad("C14", "grew", "the compressed proof grew from %d to %d characters:\n%s" % (bsize, asize, out)); return False
            if len(self.rpn) >= len(brpn): self.bad("C14", "grew", "the proof went from %d to %d steps:\n%s" % (len(brpn), len(self.rpn), out)); return False
            m = re.findall(r'Proof of "[^"]*" (?:decreased from (\d+) to (\d+)|stayed at (\d+)) bytes', out)
            if m:
                res.ev("sizes")
                if int(m[0][0] or m[0][2]) - bsize not in (0, 1, -1, 2): self.bad("C14", "wrong-size", "reported old size %s; the proof has %d characters" % (m[0], bsize)); return False
        if bv is not None and changed:
            v = mmref.verify(db, self.s, self.rpn)
            if bv.kind == "ok" and v.kind != "ok": self.bad("C14", "broken", "MINIMIZE_WITH turned a valid proof of %s into an invalid one (%s):\n%s\n%s" % (self.s.label, v.kind, " ".join(brpn), " ".join(self.rpn))); return False
            if bv.kind == "ok" and not bv.dv and v.dv: self.bad("C14", "dv", "MINIMIZE_WITH introduced a disjoint variable violation: %s" % (v.dv[:3],)); return False
            res.ev(("valid after", v.kind))
        vague = set(l for l, f in b_ess if f is None)
        new = set((l, f) for l, f in a_ess - b_ess if f is not None and l not in vague and db.by_label[l].type in "ap")
        base = self.axioms(set(l for l, f in b_ess))
        for l, f in sorted(new):
            x = db.by_label[l]
            res.ev(("new", l in self.usage, x.type))
            why = None
            if not matches(db, l, pat): why = "does not match the label list"
            elif "except" in o and matches(db, l, o["except"]): why = "is excluded by /EXCEPT %s" % o["except"]
            elif l in self.usage and "override" not in o and not self.off: why = "has discouraged usage"
            elif self.boxstmt and "include_mathboxes" not in o and self.boxstmt <= x.num < self.boxstart: why = "is in another mathbox"
            elif "forbid" in o and (matches(db, l, o["forbid"]) or any(matches(db, y, o["forbid"]) for y in self.g.trace(l, False)[0])): why = "is or depends on a statement excluded by /FORBID %s" % o["forbid"]
            else:
                ax = self.axioms([l]) - base
                if "allow" in o: ax = set(y for y in ax if not matches(db, y, o["allow"]) or "nonew" in o and matches(db, y, o["nonew"]))
                if ax: why = "depends on the new axioms %s" % ", ".join(sorted(ax))
            if why: self.bad("C14", "restriction", "MINIMIZE_WITH %s%s introduced %s (proving %s), which %s" % (pat, q, l, " ".join(f), why)); return False
        return True

def qualifiers(r, db, x):
    labels = [s.label for s in x.prior]
    ax = [s.label for s in x.prior if s.type == "a"]
    def pat():
        k = r.random()
        if k < .3: return r.choice(labels)[:r.randint(1, 3)] + "*"
        if k < .4 and len(labels) > 2:
            i = r.randrange(len(labels)); return labels[i] + "~" + labels[r.randint(i, len(labels) - 1)]
        return ",".join(r.sample(labels, min(len(labels), r.randint(1, 3))))
    o = {}; q = ""
    if r.random() < .2: o["may_grow"] = 1; q += " /may_grow"
    if r.random() < .2: o["except"] = pat(); q += ' /except "%s"' % o["except"]
    if r.random() < .2: o["forbid"] = pat(); q += ' /forbid "%s"' % o["forbid"]
    if r.random() < .45:
        o["allow"] = r.choice(["*", "*", pat()]); q += ' /allow_new_axioms "%s"' % o["allow"]
        if r.random() < .5: o["nonew"] = r.choice([pat(), ",".join(r.sample(ax, min(len(ax), 3)))]); q += ' /no_new_axioms_from "%s"' % o["nonew"]
    elif r.random() < .1: o["nonew"] = pat(); q += ' /no_new_axioms_from "%s"' % o["nonew"]
    if r.random() < .25: o["override"] = 1; q += " /override"
    if r.random() < .25: o["include_mathboxes"] = 1; q += " /include_mathboxes"
    if r.random() < .3: q += " /verbose"
    return o, q

def case(res, rng, ctx):
    r = rng
    text, g, proofs = mmgen.make_db(r, r.choice(["normal", "compressed", "packed", None]), comments=r.random() < .2, nth=r.randint(3, 11))
    db = mmref.parse(text)
    box = None
    if r.random() < .35:
        box = deco.mathboxes(r, text, db, r.randint(1, 2))
        if box: text = box
    marked = set()
    if r.random() < .45:
        A = [s.label for s in db.asserts()]
        marked = set(r.sample(A, min(len(A), r.randint(1, 4))))
        marked = set(l for l in marked if r.random() < .9)
        text = deco.mark(r, text, sorted(marked), deco.USAGE)
    db = mmref.parse(text)
    c = [l for l, (d, o) in proofs.items() if len(d.nodes) < 80]
    c = [l for l in c if len(mmref.rpn_of(*proofs[l])) <= 160]
    if not c: return
    l = r.choice(c[len(c) // 3:]); dag, root = proofs[l]; s = db.by_label[l]
    # the stored proof: as it is or with some theorems expanded
    t = build(db, pa.tree(db, mmref.rpn_of(dag, root)))
    if r.random() < .5:
        ps = sorted(set(n.label for n in t.walk() if db.by_label[n.label].type == "p"))
        if ps:
            try: w = expand(db, t, set(r.sample(ps, r.randint(1, len(ps)))), 400)
            except TooBig: w = None
            if w is not None:
                d2 = Dag()
                def add(n): return d2.add(n.label, [add(k) for k in n.kids])
                root2 = add(w)
                text = subst_proofs(text, {l: mmgen.render_proof(db, s, d2, root2, r.choice(["normal", "compressed", "packed"]), r)})
                db = mmref.parse(text); s = db.by_label[l]; dag, root = d2, root2
    elif r.random() < .15: text = subst_proofs(text, {l: "?"}); db = mmref.parse(text); s = db.by_label[l]
    binary = ctx["asan"] if r.random() < .12 else ctx["plain"]
    with drive.Scratch() as sc:
        sc.write("t.mm", text)
        x = Min(res, r, binary, sc, text, db, s, dag, root)
        x.marked = marked; x.off = False
        try:
            if not x.start(): return
            x.prepare()
            if marked and r.random() < .15: x.p.cmd("set discouragement off"); x.off = True
            n = r.randint(1, 5)
            for _ in range(n):
                if x.viol: break
                if len(x.rpn) > 500: x.do("undo"); continue
                k = r.random()
                used = sorted(set(q for q in x.rpn if q != "?" and db.by_label[q].type == "p"))
                if used and k < .45:
                    L = r.choice(used)
                    if r.random() < .15: L = r.choice(["*", "th*", ",".join(r.sample(used, min(2, len(used))))])
                    x.exp = None
                    before = list(x.rpn)
                    if not x.do_expand(L): break
                    if x.exp is None or x.rpn == before: continue
                    if L not in db.by_label or "?" in x.rpn: continue
                    over = r.random() < .3
                    w = x.must(x.exp, L, over or x.off)
                    b2 = list(x.rpn)
                    if not x.minimize(L, " /verbose" + (" /override" if over else ""), {"override": 1} if over else {}): break
                    if w is not None:
                        res.ev("must shorten"); res.count("must shorten")
                        if x.rpn == b2 and "Reverting" not in x.out and "timed out" not in x.out:
                            x.bad("C14", "not-shortened", "the subproof of \"%s\" in %s (%d steps) is an instance of %s, but MINIMIZE_WITH %s finds nothing:\n%s" % (" ".join(w.f), " ".join(b2), w.size, L, L, x.out))
                    continue
                o, q = qualifiers(r, db, x)
                lab = r.choice(["*", "*", "*", "th*", r.choice([p.label for p in x.prior]), r.choice([p.label for p in x.prior]), r.choice([p.label for p in x.prior])[:2] + "*"])
                if not x.minimize(lab, q, o): break
                if r.random() < .2: x.do("undo")
        except pa.Died: pass
        ss = x.p.session()
        if not res.check_session(ss, x.files, "proof assistant session"): return
        x.report({"C14"})
        res.sample = x.history

if __name__ == "__main__":
    c = harness.Check("C14", assumptions=["new axioms are judged on essential steps, as SHOW TRACE_BACK /ESSENTIAL counts them", "the size of a compressed proof is the length of its text without line breaks", "syntax steps that a replacement needs are not subject to the restrictions"])
    ctx = {"plain": harness.build("plain"), "asan": harness.build("asan")}
    c.run("minimize", case, c.n(7000, 100000), ctx, "random EXPAND and MINIMIZE_WITH commands with all qualifiers on generated databases with markers and mathboxes: validity, sizes, restrictions and expected expansions")
    c.finish(min_evals=1000)
