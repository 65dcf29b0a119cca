"""Random Proof Assistant sessions, watched step by step by monitors."""
import re, random
import pa, mmref, mmgen, drive

# what a command says when it did nothing (these must not take an UNDO level)
NOTHING = re.compile(r"(?m)^(\?|>>> \?Error|No new unifications were made|No expansion occurred|No new subproofs were found|The proof is already complete|There is nothing|There is nothing more to redo|No .*shorter .* found|No shorter proof was found|A proof for step \d+ was not found)")

class Run:
    def __init__(self, res, rng, binary, sc, text, db, stmt, dag, root, incomplete=None):
        self.res = res; self.r = rng; self.text = text; self.db = db; self.s = stmt; self.dag = dag; self.root = root
        self.sc = sc; self.p = pa.PA(binary, sc.d, timeout=90)
        self.files = {"t.mm": text}
        self.state = None; self.stack = []; self.ptr = 0; self.limit = 200; self.overflow = False
        self.saved = None; self.history = []; self.orig = list(stmt.proof)
        self.frame = set(h.label for h in stmt.mhyps + stmt.ohyps)
        self.prior = [x for x in db.stmts[1:stmt.num] if x.type in "ap"]
        self.refs = {}
        self.refx = None
        self.viol = []; self.stop = False
    def bad(self, prop, key, desc):
        self.viol.append((prop, key, desc))
    def report(self, props):
        for prop, key, desc in self.viol:
            if prop in props: self.res.bad(key, desc + "\n\ntranscript tail:\n" + "".join(self.p.log)[-6000:], self.files, self.p.cmds); return
    # ------------------------------------------------------------ state
    def observe(self):
        a = self.p.cmd("show new_proof /all /lemmon")
        n = self.p.cmd("show new_proof /normal")
        lines = pa.parse_state(a); rpn = pa.parse_normal(n)
        if lines is None or rpn is None:
            self.bad("C12", "listing-garbled", "the proof in progress cannot be read back:\n%s\n%s" % (a, n)); return False
        self.prev = self.state
        self.state = a; self.lines = lines; self.rpn = rpn
        self.tree = pa.tree(self.db, rpn)
        self.invariants()
        return True
    def invariants(self):
        """what must be true of every proof in progress"""
        db, L = self.db, self.lines
        if self.tree is None:
            self.bad("C12", "malformed", "the proof in progress is not a proof tree: %s" % " ".join(self.rpn)); return
        if [x.label for x in L] != self.rpn:
            self.bad("C12", "listing-vs-proof", "SHOW NEW_PROOF /LEMMON lists %s but the proof is %s" % (" ".join(x.label for x in L), " ".join(self.rpn))); return
        for l in self.rpn:
            if l == "?": continue
            x = db.by_label.get(l)
            if x is None or x.num >= self.s.num: self.bad("C12", "later-statement", "the proof of %s uses %s, which is not an earlier statement" % (self.s.label, l)); return
            if x.type in "ef" and l not in self.frame: self.bad("C12", "foreign-hypothesis", "the proof of %s uses %s, which is not one of its hypotheses" % (self.s.label, l)); return
        if L[-1].target != self.s.math:
            self.bad("C12", "goal-changed", "the last step of the proof of %s shows %s instead of the statement" % (self.s.label, " ".join(L[-1].target))); return
        # derived formulas where a whole subproof is known
        self.known = {}; dum = lambda m: any(re.fullmatch(r"\$\d+", t) for t in m)
        def go(nd):
            ks = [go(k) for k in nd.kids]
            li = L[nd.pos - 1]
            if li.kids != [k.pos for k in nd.kids]:
                self.bad("C12", "step-references", "step %d lists its hypotheses as %s instead of %s" % (nd.pos, li.kids, [k.pos for k in nd.kids]))
            if nd.label == "?" or any(k is None for k in ks) or li.source is not None: return None
            x = db.by_label[nd.label]
            if x.type in "ef": f = x.math
            else:
                sg = {}; okk = True
                for h, k in zip(x.mhyps, ks):
                    if h.type == "f":
                        if not k or k[0] != h.math[0]: okk = False
                        sg[h.math[1]] = k[1:]
                for h, k in zip(x.mhyps, ks):
                    if h.type == "e" and mmref.subst(h.math, sg) != k: okk = False
                if not okk:
                    self.bad("C12", "unified-but-wrong", "step %d (%s) is shown as unified with %s but its hypotheses do not prove that" % (nd.pos, nd.label, " ".join(li.target))); return None
                f = mmref.subst(x.math, sg)
            if li.target != f:
                self.bad("C12", "unified-but-wrong", "step %d is shown as %s but its subproof proves %s" % (nd.pos, " ".join(li.target), " ".join(f))); return None
            self.known[nd.pos] = f
            return f
        go(self.tree)
        self.complete = "?" not in self.rpn
        self.unified = all(x.source is None and x.user in (None, x.target) for x in L)
    # ------------------------------------------------------------ starting
    def start(self):
        p = self.p
        o = p.cmd('read "t.mm"')
        if drive.READ_OK not in o: self.res.unsure("read failed: " + o[-200:]); return False
        o = p.cmd("prove %s /override" % self.s.label)
        if "MM-PA> " not in p.prompt: self.res.unsure("prove failed: " + o[-300:]); return False
        self.entry = o
        if not self.observe(): return False
        self.stack = [(self.state, "", False)]; self.ptr = 0
        if self.refx is None:
            v = mmref.verify_dag(self.db, self.s, self.dag, self.root)
            self.refx = v.exprs or {}
        return True
    def answer(self, prompt, text):
        r = self.r
        if "Accept" in prompt or "quit (Q)" in prompt: return r.choice(["", "a", "r", "q", "A", "r"])
        if "bypass" in prompt:
            m = re.findall(r"matches statements:  ([^\n]*)", text)
            c = m[-1].split() if m else []
            want = self.guided()
            w = [l for pos, l, _ in want if l in c]
            if w and r.random() < .6: return r.choice(w)
            if c and r.random() < .5: return r.choice(c)
            return r.choice(["", "", "nosuch", " ".join(c[:2]), x_ if (x_ := self.s.label) else ""]) if text.count("to bypass") < 4 else ""
        return r.choice(["y", "n", ""])
    def guided(self):
        out = []
        if self.tree is not None: pa.guide(self.db, self.tree, self.dag, self.root, out)
        return out
    # ------------------------------------------------------------ one command
    def do(self, c):
        """run one command under the monitors"""
        res = self.res
        before = self.state; brpn = self.rpn; bkn = dict(self.known)
        out = self.p.cmd(c, self.answer)
        self.out = out
        k = c.split()[0]
        if "MM-PA> " not in self.p.prompt:
            self.bad("C12", "left-assistant", "the command %r left the Proof Assistant" % c); return False
        if not self.observe(): return False
        if self.viol: return True
        res.ev((k, " ".join(c.split()[1:2]) if k in ("let", "delete", "unify", "match", "initialize", "save", "show") else "", self.state != before, len(self.rpn)))
        res.count("commands " + k); 
        if self.state != before: res.count("changed by " + k)
        changed = self.state != before
        # --- C12: claims of completeness
        if "CONGRATULATIONS" in out:
            res.count("congratulations")
            v = mmref.verify(self.db, self.s, self.rpn)
            if v.kind not in ("ok", "dv") or "?" in self.rpn:
                self.bad("C12", "false-congratulations", "after %r the program says the proof is complete, but the proof %s is not a valid proof of %s (%s)" % (c, " ".join(self.rpn), self.s.label, v.kind))
        m = re.match(r"let variable (\$\d+) ", c)
        if m and "must be between" in out and re.search(re.escape(m.group(1)) + r"(?!\d)", before):
            self.bad("C13", "work-variable-lost", "the work variable %s is part of the proof but %r says it does not exist" % (m.group(1), c))
        # --- C13: history
        info = " ".join(c.split())
        if k in ("undo", "redo"): self.judge_history(k, out, changed)
        elif c.startswith("set undo"):
            if "was changed" in out: self.limit = max(0, int(c.split()[2])); self.stack = [(self.state, "")]; self.ptr = 0; self.overflow = False
            if changed: self.bad("C13", "set-undo-changed", "SET UNDO changed the proof")
        elif k in INERT or k not in ACTIVE:
            if changed: self.bad("C12", "inspection-changed", "%r changed the proof in progress" % c)
        elif changed: self.push(info)
        elif not NOTHING.search(out): self.probe(info, c)
        if k == "save" and not self.viol:
            if "has been saved internally" not in out: self.bad("C12", "save-refused", "SAVE NEW_PROOF did not save:\n" + out)
            else: self.saved = list(self.rpn); res.count("saved")
        self.history.append(c)
        return True
    def push(self, info):
        del self.stack[self.ptr + 1:]
        self.stack.append((self.state, info)); self.ptr += 1
        if self.ptr > self.limit: del self.stack[0]; self.ptr -= 1; self.overflow = True
    def judge_history(self, k, out, changed):
        res = self.res
        if k == "undo":
            if "There is nothing to undo" in out or "Exceeded maximum of" in out:
                if changed: self.bad("C13", "empty-undo-changed", "UNDO had nothing to undo but changed the proof")
                if self.ptr: self.bad("C13", "undo-lost", "UNDO reports that there is nothing to undo, but %d changes can still be undone" % self.ptr)
                res.count("undo at the end"); return
            m = re.search(r"(?m)^Undid:  (.*)$", out)
            if not m: self.bad("C13", "undo-silent", "UNDO says neither what was undone nor that nothing was:\n" + out); return
            if self.ptr == 0: self.bad("C13", "undo-extra", "UNDO undid %r although there was nothing left to undo (limit %d)" % (m.group(1), self.limit)); return
            e = self.stack[self.ptr]; self.ptr -= 1
            if not same_info(e[1], m.group(1)): self.bad("C13", "undo-wrong-entry", "UNDO undid %r; the last change was %r" % (m.group(1), e[1])); return
            w = self.stack[self.ptr][0]
            if self.state != w: self.bad("C13", "undo-not-exact", "after UNDO of %r the proof is not the one before that command.\n--- expected\n%s\n--- got\n%s" % (e[1], w, self.state))
            res.count("undone")
        else:
            if "There is nothing more to redo" in out:
                if changed: self.bad("C13", "empty-redo-changed", "REDO had nothing to redo but changed the proof")
                if self.ptr + 1 < len(self.stack): self.bad("C13", "redo-lost", "REDO reports that there is nothing to redo after %d undone changes" % (len(self.stack) - 1 - self.ptr))
                res.count("redo at the end"); return
            m = re.search(r"(?m)^Redid:  (.*)$", out)
            if not m: self.bad("C13", "redo-silent", "REDO says neither what was redone nor that nothing was:\n" + out); return
            if self.ptr + 1 >= len(self.stack): self.bad("C13", "redo-extra", "REDO redid %r although no undone change was left" % m.group(1)); return
            self.ptr += 1; e = self.stack[self.ptr]
            if not same_info(e[1], m.group(1)): self.bad("C13", "redo-wrong-entry", "REDO redid %r; the undone change was %r" % (m.group(1), e[1])); return
            if self.state != e[0]: self.bad("C13", "redo-not-exact", "after REDO of %r the proof is not the one after that command.\n--- expected\n%s\n--- got\n%s" % (e[1], e[0], self.state))
            res.count("redone")
    def probe(self, info, c):
        """a command without visible effect that did not say it did nothing: see whether it took a level"""
        n = 0; first = None
        while n <= self.limit + 2:
            o = self.p.cmd("undo")
            m = re.search(r"(?m)^Undid:  (.*)$", o)
            if not m: break
            first = first or m.group(1); n += 1
        for _ in range(n): self.p.cmd("redo")
        took = None
        if n != self.ptr: took = True
        elif n == self.limit and n:
            took = None if same_info(self.stack[self.ptr][1], info) else same_info(info, first)
        elif self.limit == 0: took = False
        else: took = False
        self.res.count("probed")
        if took is None: self.stop = True; return
        if took and "may_grow" not in c and c.split()[0] in ("minimize_with", "match", "expand", "unify", "improve", "delete"):
            self.bad("C13", "level-for-nothing", "%r changed nothing but took an UNDO level" % c)
        if took: self.push(info); self.res.count("no visible change, level taken: " + c.split()[0])
        self.observe()
        if self.state != self.stack[self.ptr][0]: self.bad("C13", "probe", "undoing and redoing everything after %r does not lead back to the same proof" % c)

INERT = ("show", "verify", "save", "search", "set", "help", "bogus", "write", "more")
ACTIVE = ("assign", "let", "unify", "match", "improve", "replace", "delete", "initialize", "expand", "minimize_with")
def norm_info(s): return " ".join(s.split())
def same_info(a, b):
    """the program shows the expanded keywords of the command"""
    ta, tb = (re.sub("[\"']", " ", q).upper().replace("/", " / ").split() for q in (a, b))
    if len(ta) != len(tb): return False
    return all(y.startswith(x) for x, y in zip(ta, tb))

# ------------------------------------------------------------------ random commands
class Chooser:
    """picks the next command from what the session shows"""
    def __init__(self, run, rng, weights=None):
        self.x = run; self.r = rng
        self.w = dict(guided=14, assign=5, let=4, letvar=3, unify=3, match=2, improve=4, replace=3, delete=4, floats=1, init=2, expand=1, minimize=2,
                      undo=7, redo=4, setundo=0.5, save=1, inert=1.5, error=2)
        self.w.update(weights or {})
        self.pool = None
    def label(self):
        r, x = self.r, self.x
        k = r.random()
        if k < .15 and x.frame: return r.choice(sorted(x.frame))
        if k < .2: return r.choice([s.label for s in x.db.stmts[1:] if s.label])   # may be a wrong one
        if not x.prior: return "?"
        return r.choice(x.prior if r.random() < .6 else [s for s in x.prior if s.mhyps] or x.prior).label
    def step(self): return self.r.randint(1, max(1, len(self.x.rpn)))
    def unknown(self):
        u = [i + 1 for i, l in enumerate(self.x.rpn) if l == "?"]
        return self.r.choice(u) if u else self.step()
    def formula(self, s):
        """something that could stand at step s"""
        r, x = self.r, self.x
        g = [ref for pos, l, ref in x.guided() if pos == s]
        if g and r.random() < .7 and x.refx: return x.refx[g[0]]
        li = x.lines[min(s, len(x.lines)) - 1]
        m = list(li.target)
        tc = m[0]
        same = [e for e in (x.refx or []) if e and e[0] == tc]
        if same and r.random() < .6: return r.choice(same)
        vs = [q for q in x.s.math if q in x.db.allvars] or ["?"]
        return [r.choice(vs) if re.fullmatch(r"\$\d+", t) and r.random() < .8 else t for t in m]
    def q(self, m):
        t = " ".join(m)
        return "'%s'" % t if '"' in t and "'" not in t else None if '"' in t else '"%s"' % t
    def subexpr(self, v):
        r, x = self.r, self.x
        # typecode of the work variable, if a syntax step shows it
        es = [e[1:] for e in (x.refx or []) if e and e[0] != "|-"]
        tc = [l.target[0] for l in x.lines if len(l.target) == 2 and l.target[1] == v]
        if tc: es = [e[1:] for e in (x.refx or []) if e and e[0] == tc[0]] or es
        # align the target that contains it with the reference
        return r.choice(es) if es else None
    def next(self):
        r, x = self.r, self.x
        k = r.choices(list(self.w), list(self.w.values()))[0]
        if k == "guided":
            g = x.guided()
            if not g: k = "undo" if r.random() < .5 else "delete"
            else:
                pos, l, ref = g[-1] if r.random() < .5 else r.choice(g)
                st = str(pos)
                u = [i + 1 for i, q in enumerate(x.rpn) if q == "?"]
                if pos == u[-1] and r.random() < .5: st = "last"
                elif pos == u[0] and r.random() < .5: st = "first"
                elif r.random() < .2: st = str(pos - len(x.rpn) ) if pos < len(x.rpn) else st
                return "assign %s %s /override%s" % (st, l, r.choice([" /no_unify", ""]))
        if k == "assign": return "assign %s %s%s%s" % (r.choice([str(self.unknown()), str(self.unknown()), "last", "first", str(self.step())]), self.label(), r.choice([" /no_unify", ""]), r.choice([" /override", ""]))
        if k == "let":
            s = self.unknown() if r.random() < .7 else self.step()
            f = self.q(self.formula(s))
            return "let step %d = %s" % (s, f) if f else "undo"
        if k == "letvar":
            vs = sorted(set(t for l in x.lines for t in l.target + (l.source or []) + (l.user or []) if re.fullmatch(r"\$\d+", t)))
            if not vs: k = "unify"
            else:
                v = r.choice(vs); e = self.subexpr(v); f = self.q(e) if e else None
                if f and r.random() < .1: f = '"%s"' % r.choice(vs)
                return "let variable %s = %s" % (v, f) if f else "unify all"
        if k == "unify": return r.choice(["unify all", "unify step %d" % self.step(), "unify step %d" % self.step(), "unify all /interactive"])
        if k == "match": return r.choice(["match step %d" % self.unknown(), "match step %d" % self.unknown(), "match all", "match all /essential", "match step %d /max_essential_hyp 1" % self.unknown()])
        if k == "improve":
            q = r.choice(["", "", "", " /1", " /2", " /3", " /2 /subproofs", " /3 /subproofs", " /depth 1", " /no_distinct", " /override", " /depth 1 /3"])
            return "improve %s%s" % (r.choice(["all", "all", str(self.unknown()), "last", "first", str(self.step())]), q)
        if k == "replace": return "replace %s %s%s" % (r.choice([str(self.step()), "last", "first", str(self.step())]), self.label(), r.choice([" /override", ""]))
        if k == "delete": return r.choice(["delete step %d" % self.step()] * 6 + ["delete all"])
        if k == "floats": return "delete floating_hypotheses"
        if k == "init": return r.choice(["initialize step %d" % self.step(), "initialize step %d" % self.step(), "initialize all", "initialize all", "initialize user"])
        if k == "expand":
            ls = [l for l in x.rpn if l != "?" and x.db.by_label[l].type == "p"]
            return "expand %s" % (r.choice(ls) if ls and r.random() < .8 else r.choice(["*", "th*", self.label()]))
        if k == "minimize": return "minimize_with %s%s" % (r.choice(["*", self.label(), self.label(), "th*"]), r.choice(["", "", " /may_grow", " /override", " /allow_new_axioms *", " /verbose"]))
        if k == "undo": return "undo"
        if k == "redo": return "redo"
        if k == "setundo": return "set undo %d" % r.choice([0, 1, 2, 3, 5, 200])
        if k == "save": return "save new_proof%s /override" % r.choice(["", " /compressed", " /normal", " /packed", " /explicit", " /compressed /old_compression", " /compressed /packed"])
        if k == "inert":
            return r.choice(["show new_proof", "show new_proof /unknown", "show new_proof /not_unified", "show new_proof /essential /reverse", "show statement %s" % x.s.label, "show proof %s /all" % x.s.label,
                             "verify proof %s" % x.s.label, "verify proof *", "show labels *", "search * '%s'" % "|-", "show new_proof /compressed", "show usage %s" % x.s.label, "show trace_back %s" % x.s.label,
                             "show settings", "show new_proof /lemmon /renumber", "help undo", "show new_proof /packed", "show new_proof /explicit", "show memory" , "show source %s" % x.s.label])
        # rejected or mistaken commands
        n = len(x.rpn)
        return r.choice(["assign %d %s" % (n + 1, self.label()), "assign 0 %s" % self.label(), "assign %d nosuchlabel" % self.unknown(), "delete step %d" % (n + 1), "delete step %d" % (n + 50000), "delete step 0", "delete step -70000", "let step %d = \"|- zork\"" % self.step(),
                         "let variable $99999 = \"%s\"" % "x", "unify step %d" % (n + 7), "match step %d" % (n + 1), "replace %d %s" % (self.step(), "nosuch"), "improve %d" % (n + 3), "initialize step %d" % (n + 1),
                         "assign %d %s" % (self.step(), x.s.label), "bogus command", "expand nosuch", "minimize_with nosuch", "improve zork", "delete step -1", "initialize step 0", "unify step 0", "match step 0", "replace 0 %s" % self.label(),
                         "assign -999 %s" % self.label(), "let step %d = \"%s\"" % (n + 2, "|-"), "read t.mm", "prove %s" % x.s.label, "erase"])
