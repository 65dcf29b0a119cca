"""Random generator of well-formed Metamath databases with valid proofs.
Expressions are trees: ('v', name) | (con_index, [args])."""
import random
from mmref import Dag, pair
import mmref

class Con:
    def __init__(self, label, typ, args, tmpl):
        self.label = label; self.typ = typ; self.args = args; self.tmpl = tmpl  # tmpl: str tokens / int arg index
class Var:
    def __init__(self, name, typ, flabel): self.name = name; self.typ = typ; self.flabel = flabel
class Assertion:
    def __init__(self): self.hyps = []; self.concl = None; self.dv = set(); self.label = None; self.vars = []; self.fvars = []

WORDS = "alpha beta the proof of closed law inference syllogism equality commutes with deduction form identity antecedent converse biconditional associative variable substitution holds when given class theorem 2 rule using only first".split()

class Gen:
    def __init__(self, rng, **opt):
        self.r = rng
        o = dict(ncons=None, nax=None, nth=None, layout="wild", comments=True, dummy=True, local_vars=True,
                 max_expr=60, unknown=0.0, fmt=None, markup=False, dvprob=.5, hyps=3, contrib=False, plain_f=False, prefix="", stdtc=None)
        o.update(opt); self.o = o
        self.names = set()
        self.out = []
    # ---------------------------------------------------------------- names
    def fresh(self, pool):
        while True:
            n = pool()
            if n and n not in self.names:
                self.names.add(n); return n
    def label(self, stem):
        r = self.r
        def f():
            s = stem + "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(r.randint(1, 3)))
            if r.random() < .15: s += r.choice(["-", ".", "_"]) + r.choice("abcxyzABC019")
            if r.random() < .1: s = s.capitalize()
            return s
        return self.fresh(f)
    # ---------------------------------------------------------------- build
    def build(self):
        r, o = self.r, self.o
        P = lambda a: self.fresh(lambda: r.choice(a))
        # typecodes
        self.prov = "|-"; self.names.add("|-")
        self.wff = "wff"; self.cls = "class"; self.set = "setvar"
        for x in (self.wff, self.cls, self.set): self.names.add(x)
        lp, rp = "(", ")"
        self.names.update("( ) [ ] { } <. >. | /".split())
        self.consts = ["|-", "wff", "class", "setvar", "(", ")", "[", "]", "{", "}", "<.", ">.", "|", "/"]
        ops = ["->", "<->", "/\\", "\\/", "-.", "A.", "E.", "=", "e.", "C_", "u.", "i^i", "+", "x.", "`", "o.", "F.", "T.", "~~", "<_", "*", "^", "&", "@", "!", "?", "-->", "=>", "S.", "_om", "_pi", "1", "0", "2", "suc", "U.", "P.", "dom", "ran", "'", "\"", "::", ":=", "%", ";", ",", "#"]
        r.shuffle(ops)
        nop = lambda: self.fresh(lambda: ops.pop() if ops else "op%d" % r.randint(0, 9999))
        self.cons = []
        self.vars = {}
        T = [self.wff, self.cls]
        # variables: names
        def mkvar(t, i):
            base = {self.wff: ["ph", "ps", "ch", "th", "ta", "et", "ze", "si"], self.cls: ["A", "B", "C", "D", "R", "S"], self.set: ["x", "y", "z", "w", "v", "u"]}[t]
            nm = base[i] if i < len(base) else "%s%d" % (base[i % len(base)], i // len(base))
            if nm in self.names: nm = nm + "'"
            self.names.add(nm)
            fl = {self.wff: "w", self.cls: "c", self.set: "v"}[t] + nm.replace("'", "p").lower()
            if fl in self.names: fl = self.label(fl)
            self.names.add(fl)
            v = Var(nm, t, fl); self.vars[nm] = v; return v
        self.gvars = {t: [mkvar(t, i) for i in range(n)] for t, n in ((self.wff, r.randint(3, 6)), (self.cls, r.randint(2, 4)), (self.set, r.randint(2, 4)))}
        ncons = o["ncons"] or r.randint(4, 10)
        def addcon(typ, args, tmpl, stem):
            c = Con(self.label(stem), typ, args, tmpl); self.cons.append(c); return len(self.cons) - 1
        # must-have: implication-like, equality-like, setvar coercion
        imp = nop(); self.consts.append(imp)
        self.imp = addcon(self.wff, [self.wff, self.wff], ["(", 0, imp, 1, ")"], "wi")
        self.cv = addcon(self.cls, [self.set], [0], "cv")
        eq = nop(); self.consts.append(eq)
        addcon(self.wff, [self.cls, self.cls], [0, eq, 1], "weq")
        for _ in range(ncons):
            op = nop(); self.consts.append(op)
            k = r.randint(0, 8)
            if k == 0: addcon(self.wff, [self.wff], [op, 0], "wn")
            elif k == 1: addcon(self.wff, [self.wff, self.wff], ["(", 0, op, 1, ")"], "wa")
            elif k == 2: addcon(self.wff, [self.set, self.wff], [op, 0, 1], "wal")
            elif k == 3: addcon(self.cls, [], [op], "c0")
            elif k == 4: addcon(self.cls, [self.cls, self.cls], ["(", 0, op, 1, ")"], "cpl")
            elif k == 5: addcon(self.wff, [self.cls, self.set, self.wff], ["[", 0, op, 1, "]", 2], "wsb")
            elif k == 6: addcon(self.cls, [self.set, self.wff], ["{", op, 0, "|", 1, "}"], "cab")
            elif k == 7: addcon(self.wff, [], [op], "wt")
            else: addcon(self.cls, [self.cls], [op, 0], "cu")
        r.shuffle(self.consts)
        self.asserts = []
        nax = o["nax"] or r.randint(4, 8)
        self.axioms = []
        # modus ponens
        w = self.gvars[self.wff]
        a = Assertion(); p, q = ("v", w[0].name), ("v", w[1].name)
        a.hyps = [p, (self.imp, [p, q])]; a.concl = q
        if r.random() < .5: a.hyps.reverse()
        a.label = self.label("ax-mp"); self.finish(a); self.axioms.append(a)
        for i in range(nax):
            a = Assertion()
            k = r.randint(0, 3)
            nh = 0 if k < 2 else r.randint(1, 2)
            vs = self.pickvars(r.randint(1, 4))
            for _ in range(nh):
                a.hyps.append(("v", r.choice(w).name) if r.random() < .6 else self.term(self.wff, 2, vs))
            a.concl = self.term(self.wff, r.randint(1, 3), vs + [self.vars[x] for h in a.hyps for x in self.tvars(h)])
            if a.concl[0] == "v" and not a.hyps: a.concl = (self.imp, [a.concl, self.term(self.wff, 1, vs)])
            tv = sorted(set(x for t in a.hyps + [a.concl] for x in self.tvars(t)))
            if len(tv) > 1 and r.random() < o["dvprob"]:
                for _ in range(r.randint(1, 3)):
                    x, y = r.sample(tv, 2)
                    if self.vars[x].typ == self.set or self.vars[y].typ == self.set or r.random() < .3: a.dv.add(pair(x, y))
            a.label = self.label("ax-" if r.random() < .7 else "df-"); self.finish(a); self.axioms.append(a)
        self.asserts = list(self.axioms)
        self.thms = []
        nth = o["nth"] or r.randint(4, 14)
        tries = 0
        while len(self.thms) < nth and tries < nth * 6:
            tries += 1
            t = self.theorem()
            if t is not None: self.thms.append(t); self.asserts.append(t)
        return self
    def pickvars(self, n):
        allv = [v for t in self.gvars for v in self.gvars[t]]
        return self.r.sample(allv, min(n, len(allv)))
    def finish(self, a):
        s = []
        for t in a.hyps + [a.concl]:
            for x in self.tvars(t):
                if x not in s: s.append(x)
        a.vars = s
    # ---------------------------------------------------------------- terms
    def tvars(self, t):
        out = []; st = [t]
        while st:
            x = st.pop()
            if x[0] == "v": out.append(x[1])
            else: st.extend(reversed(x[1]))
        return out
    def typ(self, t): return self.vars[t[1]].typ if t[0] == "v" else self.cons[t[0]].typ
    def term(self, typ, depth, vs):
        r = self.r
        cand = [v for v in vs if v.typ == typ] or self.gvars[typ]
        if typ == self.set or depth <= 0 or r.random() < .25:
            if typ == self.cls and r.random() < .3:
                cs = [v for v in vs if v.typ == self.set] or self.gvars[self.set]
                return (self.cv, [("v", r.choice(cs).name)])
            return ("v", r.choice(cand).name)
        ks = [i for i, c in enumerate(self.cons) if c.typ == typ]
        if typ == self.wff and r.random() < .3: ks = [self.imp]
        i = r.choice(ks)
        return (i, [self.term(t, depth - 1, vs) for t in self.cons[i].args])
    def size(self, t):
        return 1 if t[0] == "v" else 1 + sum(self.size(x) for x in t[1])
    def toks(self, t):
        if t[0] == "v": return [t[1]]
        c = self.cons[t[0]]; out = []
        for x in c.tmpl:
            if isinstance(x, int): out += self.toks(t[1][x])
            else: out.append(x)
        return out
    def sub(self, t, s):
        if t[0] == "v": return s.get(t[1], t)
        return (t[0], [self.sub(x, s) for x in t[1]])
    def match(self, pat, t, s):
        if pat[0] == "v":
            if self.vars[pat[1]].typ != self.typ(t): return False
            if self.vars[pat[1]].typ == self.set and t[0] != "v": return False
            if pat[1] in s: return s[pat[1]] == t
            s[pat[1]] = t; return True
        if t[0] != pat[0]: return False
        return all(self.match(a, b, s) for a, b in zip(pat[1], t[1]))
    # ---------------------------------------------------------------- theorem
    def theorem(self):
        r, o = self.r, self.o
        a = Assertion(); a.label = None
        vs = self.pickvars(r.randint(3, 7))
        if not any(v.typ == self.wff for v in vs): vs.append(self.gvars[self.wff][0])
        pool = []     # (expr, proof) ; proof: ('h',i) | (assertion, sigma, [proofs])
        for i in range(r.randint(0, o["hyps"])):
            h = self.term(self.wff, r.choice([0, 1, 2]), vs)
            if h in a.hyps: continue
            a.hyps.append(h); pool.append((h, ("h", len(a.hyps) - 1)))
        dv = set()
        for _ in range(r.randint(2, 9)):
            A = r.choice(self.asserts if r.random() < .5 else self.asserts[-6:])
            for attempt in range(4):
                s = {}; prs = []
                ok = True
                for h in A.hyps:
                    if not pool: ok = False; break
                    e, p = r.choice(pool) if r.random() < .5 else pool[-1]
                    if not self.match(h, e, s):
                        # search
                        for e, p in r.sample(pool, len(pool)):
                            s2 = dict(s)
                            if self.match(h, e, s2): s = s2; break
                        else: ok = False; break
                    prs.append(p)
                if ok: break
            else: continue
            if not ok: continue
            for x in A.vars:
                if x not in s:
                    s[x] = self.term(self.vars[x].typ, r.choice([0, 0, 1, 2]), vs)
            need = set(); bad = False
            for x, y in A.dv:
                for u in set(self.tvars(s[x])):
                    for w_ in set(self.tvars(s[y])):
                        if u == w_: bad = True
                        else: need.add(pair(u, w_))
            if bad: continue
            c = self.sub(A.concl, s)
            if self.size(c) > o["max_expr"]: continue
            dv |= need
            pool.append((c, (A, s, prs)))
        cand = [x for x in pool if x[1][0] != "h"]
        if not cand: return None
        e, p = cand[-1] if r.random() < .7 else r.choice(cand)
        a.concl = e; a.proof = p
        # recompute needed dv for the chosen proof
        need = set(); st = [p]; seen = set(); pv = set()
        while st:
            q = st.pop()
            if id(q) in seen or q[0] == "h": continue
            seen.add(id(q))
            A, s, prs = q
            for x in A.vars: pv.update(self.tvars(s[x]))
            for x, y in A.dv:
                for u in set(self.tvars(s[x])):
                    for w_ in set(self.tvars(s[y])): need.add(pair(u, w_))
            st.extend(prs)
        a.label = self.label("th")
        self.finish(a)
        a.dummies = sorted(pv - set(a.vars))
        a.alldv = need
        a.dv = set(d for d in need if d[0] in a.vars and d[1] in a.vars)
        if r.random() < .2 and len(a.vars) > 1:
            a.alldv = set(a.alldv); x, y = r.sample(a.vars, 2); a.alldv.add(pair(x, y)); a.dv = set(d for d in a.alldv if d[0] in a.vars and d[1] in a.vars)
        return a
    # ---------------------------------------------------------------- printing
    def ws(self):
        if self.o["layout"] != "wild": return " "
        return self.r.choice([" ", " ", " ", "  ", "\n  ", "\t", " \n    "])
    def comment(self, must=False, long=False):
        r = self.r
        if not must and not self.o["comments"]: return ""
        w = [r.choice(WORDS) for _ in range(r.randint(1, 25 if long else 12))]
        if self.o["markup"]:
            if r.random() < .5: w.insert(r.randint(0, len(w)), "` " + " ".join(self.toks(self.term(self.wff, 1, self.pickvars(3)))) + " `")
            if r.random() < .4 and self.asserts: w.insert(r.randint(0, len(w)), "~ " + r.choice(self.emitted) if self.emitted else "x")
            if r.random() < .3: w.insert(r.randint(0, len(w)), "_italic_")
        return "$( " + " ".join(w) + " $)"
    def emit_math(self, toks):
        return "".join(t + self.ws() for t in toks)
    def f_order(self): pass
    def text(self):
        r, o = self.r, self.o
        self.emitted = []
        L = []
        # constants
        cs = list(self.consts)
        k = r.randint(1, len(cs))
        L.append("$c " + " ".join(cs[:k]) + " $.")
        if cs[k:]: L.append("$c " + " ".join(cs[k:]) + " $.")
        gv = [v for t in self.gvars for v in self.gvars[t]]
        r.shuffle(gv)
        self.gorder = gv
        if r.random() < .5: L.append("$v " + " ".join(v.name for v in gv) + " $.")
        else:
            for v in gv: L.append("$v " + v.name + " $.")
        for v in gv:
            if o["comments"] and r.random() < .3: L.append("$( Let ` %s ` be a %s. $)" % (v.name, v.typ))
            L.append("%s $f %s %s $." % (v.flabel, v.typ, v.name))
        # syntax axioms (any var of the type)
        self.con_formal = []
        for c in self.cons:
            fv = []
            for t in c.args:
                cand = [v for v in gv if v.typ == t and v not in fv]
                if not cand:
                    # add an extra variable
                    nm = self.fresh(lambda: "q%d" % r.randint(0, 99)); fl = self.fresh(lambda: "f%d" % r.randint(0, 999))
                    v = Var(nm, t, fl); self.vars[nm] = v; self.gvars[t].append(v); gv.append(v)
                    L.append("$v %s $." % nm); L.append("%s $f %s %s $." % (fl, t, nm)); cand = [v]
                fv.append(r.choice(cand))
            self.con_formal.append(fv)
            m = [fv[x].name if isinstance(x, int) else x for x in c.tmpl]
            if o["comments"] and r.random() < .4: L.append(self.comment())
            L.append("%s $a %s %s $." % (c.label, c.typ, " ".join(m)))
        self.gv = gv
        items = [("a", a) for a in self.axioms] + [("p", t) for t in self.thms]
        for kind, a in items: L.append(self.emit_assert(kind, a))
        return "\n".join(L) + "\n"
    def finalize_mand(self, a):
        """mandatory $f in database order"""
        order = {v.name: i for i, v in enumerate(self.gv)}
        return sorted(a.vars, key=lambda x: order[x])
    def emit_assert(self, kind, a):
        r, o = self.r, self.o
        lines = []
        dv = set(a.alldv) if kind == "p" else set(a.dv)
        block = bool(a.hyps or dv) or r.random() < .1
        inner = []
        # $d statements: group cliques at random
        pairs = sorted(dv); dlines = []
        rest = set(pairs)
        while rest:
            x, y = r.choice(sorted(rest)); grp = [x, y]
            cands = sorted(set(z for p in dv for z in p) - set(grp)); r.shuffle(cands)
            for z in cands:
                if r.random() < .7 and all(pair(z, g) in dv for g in grp): grp.append(z)
            for i in range(len(grp)):
                for j in range(i): rest.discard(pair(grp[i], grp[j]))
            r.shuffle(grp)
            dlines.append("$d " + self.emit_math(grp) + "$.")
        a.hlabels = []
        elines = []
        for i, h in enumerate(a.hyps):
            hl = "%s.%d" % (a.label, i + 1)
            if hl in self.names: hl = self.label("hyp")
            self.names.add(hl); a.hlabels.append(hl)
            c = (self.comment() + " ") if o["comments"] and r.random() < .15 else ""
            elines.append(c + "%s $e %s%s$." % (hl, self.emit_math([self.prov]), self.emit_math(self.toks(h))))
        if r.random() < .3 and dlines and elines:
            # mix keeping $e order
            body = list(elines)
            for d in dlines: body.insert(r.randint(0, len(body)), d)
        else: body = dlines + elines
        stmt = self.emit_math([self.prov]) + self.emit_math(self.toks(a.concl))
        com = ""
        if o["comments"] and (o["contrib"] or r.random() < .6):
            com = self.comment(long=True)
            if o["contrib"]: com = com[:-3] + " (Contributed by N.M., %d-%s-20%02d.) $)" % (r.randint(1, 28), r.choice("Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()), r.randint(10, 20))
            com += "\n"
        if kind == "a":
            main = com + "%s $a %s$." % (a.label, stmt)
        else:
            a.pf = None
            main = com + "%s $p %s$=%s$." % (a.label, stmt, " @@PROOF:%s@@ " % a.label)
        self.emitted.append(a.label)
        ind = "  " if block else ""
        lines = body + [main]
        if block:
            if r.random() < .1 and len(body) > 1:
                # nested block: outer part declares the first lines, inner block holds the rest
                k = r.randint(1, len(body) - 1) if len(body) > 1 else 0
                return "${\n  " + "\n  ".join(body[:k]) + "\n  ${\n    " + "\n    ".join(body[k:] + [main]) + "\n  $}\n$}"
            return "${\n  " + "\n  ".join(lines) + "\n$}"
        return "\n".join(lines)
    # ---------------------------------------------------------------- proofs
    def syn(self, dag, t):
        if t[0] == "v": return dag.add(self.vars[t[1]].flabel)
        c = self.cons[t[0]]
        fv = self.con_formal[t[0]]
        order = sorted(range(len(fv)), key=lambda i: self.gidx[fv[i].name])
        return dag.add(c.label, [self.syn(dag, t[1][i]) for i in order])
    def prf(self, dag, a, p, memo):
        if p[0] == "h": return dag.add(a.hlabels[p[1]])
        k = id(p)
        if k in memo: return memo[k]
        A, s, prs = p
        kids = [self.syn(dag, s[x]) for x in self.finalize_mand(A)] + [self.prf(dag, a, q, memo) for q in prs]
        n = dag.add(A.label, kids); memo[k] = n
        return n
    def proofs(self):
        """label -> (dag, root); call after text()"""
        self.gidx = {v.name: i for i, v in enumerate(self.gv)}
        out = {}
        for a in self.thms:
            d = Dag(); out[a.label] = (d, self.prf(d, a, a.proof, {}))
        return out

FMTS = ["normal", "compressed", "packed", "explicit", "packed-explicit"]

def wrap_tokens(toks, rng=None, width=76, indent="    "):
    lines = []; cur = indent
    for t in toks:
        if len(cur) + 1 + len(t) > width: lines.append(cur); cur = indent
        cur += " " + t
    lines.append(cur)
    return "\n".join(lines)

def render_proof(db, stmt, dag, root, fmt, rng, comments=False, unknown_ok=True):
    if fmt == "normal" or fmt == "packed" and not mmref.use_counts(dag, root): toks = mmref.enc_normal(dag, root)
    elif fmt == "packed": toks = mmref.enc_packed(db, stmt, dag, root)
    elif fmt == "explicit": toks = mmref.enc_packed(db, stmt, dag, root, explicit=True, names=False)
    elif fmt == "packed-explicit": toks = mmref.enc_packed(db, stmt, dag, root, explicit=True)
    else:
        for _ in range(4):
            head, body = mmref.enc_compressed(db, stmt, dag, root, rng, share=rng.choice([1, 1, .7, 0]))
            if not ("UV" in body and "UU" not in body): break
        else: return render_proof(db, stmt, dag, root, "normal", rng)
        chunks = []
        i = 0
        while i < len(body):
            k = rng.randint(1, 70) if rng.random() < .5 else 70
            chunks.append(body[i:i + k]); i += k
        toks = head + chunks
    if comments and rng.random() < .3 and fmt != "compressed":
        toks = list(toks); toks.insert(rng.randint(0, len(toks)), "$( proof comment $)")
    elif comments and rng.random() < .2 and fmt == "compressed":
        toks = list(toks); k = toks.index(")")
        toks.insert(rng.randint(k + 1, len(toks)), "$( proof comment $)")
    if fmt in ("packed", "explicit", "packed-explicit") and rng.random() < .3:
        # spaced separators
        sp = []
        for t in toks:
            sp.append(t if t.startswith("$(") or t.endswith("$)") else t.replace(":", " : ").replace("=", " = ") if rng.random() < .3 else t)
        toks = sp
    return "\n" + wrap_tokens(toks) + " "

def make_db(rng, fmt=None, comments=False, truncate_unknown=0.0, **opt):
    """returns (text, gen, proofs)"""
    if "desc" in opt: opt["comments"] = opt.pop("desc")      # description comments
    g = Gen(rng, **opt).build()
    skel = g.text()
    pr = g.proofs()
    import re
    blank = re.sub(r" @@PROOF:[^@]*@@ ", " ? ", skel)
    db = mmref.parse(blank)
    def rep(m):
        lab = m.group(1)
        f = fmt or rng.choice(FMTS)
        if rng.random() < truncate_unknown:
            return " ? "
        d, root = pr[lab]
        try: mmref.rpn_of(d, root, 3000)
        except mmref.ProofError: f = "compressed"
        return render_proof(db, db.by_label[lab], d, root, f, rng, comments)
    text = re.sub(r" @@PROOF:([^@]*)@@ ", rep, skel)
    return text, g, pr

if __name__ == "__main__":
    import sys, time
    rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    t0 = time.time()
    text, g, pr = make_db(rng, comments=True)
    db = mmref.parse(text)
    for s in db.asserts():
        if s.type == "p":
            v = mmref.verify(db, s)
            print("$( %s: %s dv=%s $)" % (s.label, v.kind, v.dv[:2]))
    print(text)
