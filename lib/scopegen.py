"""Random valid databases that stress declarations and scopes (formulas are meaningless, proofs are '?')."""
import random
SYMCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789`~!@#%^&*()-_=+[]{};:'\",.<>/?\\|"
LABCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."

class SG:
    def __init__(self, rng, big=False, comments=True, dprob=.25, bad=True):
        self.r = rng; self.names = set(); self.out = []; self.big = big; self.comments = comments; self.dprob = dprob; self.bad = bad
        self.consts = []; self.nlab = 0; self.used_vars = set()
    def sym(self):
        r = self.r
        while True:
            if self.names and r.random() < .4: s = r.choice(sorted(self.names)) + r.choice(SYMCH)   # prefixes
            else: s = "".join(r.choice(SYMCH) for _ in range(r.choice([1, 1, 2, 3, 8])))
            if s in self.names or s.startswith("$"): continue
            self.names.add(s); return s
    def lab(self):
        r = self.r
        while True:
            if self.names and r.random() < .2: s = "".join(c for c in r.choice(sorted(self.names)) if c in LABCH) + r.choice(LABCH)
            else: s = "".join(r.choice(LABCH) for _ in range(r.choice([1, 2, 4, 7, 12])))
            if s in self.names: continue
            self.names.add(s); return s
    def emit(self, toks):
        r = self.r; s = ""
        if self.comments and r.random() < .12: s += "$( %s $)%s" % (" ".join(r.choice(["note", "about", "x", "$a", "$.", "${", "a$c", "`", "~", "_x_"][:3] + ["(c)"]) for _ in range(r.randint(0, 6))), r.choice([" ", "\n"]))
        for t in toks:
            s += t
            if self.comments and r.random() < .01: s += " $( mid $)"
            s += r.choice([" ", " ", " ", "  ", "\n", "\t"])
        self.out.append(s.rstrip(" \t") + r.choice(["\n", "\n", " ", "\n\n"]))
    def build(self):
        r = self.r
        n = r.randint(2, 8)
        cs = [self.sym() for _ in range(n)]
        self.consts += cs; self.emit(["$c"] + cs + ["$."])
        self.vars = []      # stack of lists
        self.fs = []        # stack of dict var->type
        self.ds = []
        self.block(0, r.randint(8, 25))
        # close
        return "".join(self.out)
    def active(self): return [v for l in self.vars for v in l]
    def activef(self): return [v for l in self.fs for v in l]
    def block(self, depth, n):
        r = self.r
        self.vars.append([]); self.fs.append([])
        if depth == 0 or r.random() < .5:
            self.newvars(r.randint(1, 5) if not self.big else r.randint(1, 40))
        for _ in range(n):
            k = r.random()
            if k < .05 and depth == 0:
                c = [self.sym() for _ in range(r.randint(1, 3))]; self.consts += c; self.emit(["$c"] + c + ["$."])
            elif k < .15: self.newvars(r.randint(1, 3))
            elif k < .15 + self.dprob * .6:
                a = self.active()
                if len(a) > 1: self.emit(["$d"] + r.sample(a, min(len(a), r.choice([2, 2, 3, 4, 4 if not self.big else 15]))) + ["$."])
            elif k < .45: self.emit([self.lab(), "$e"] + self.formula() + ["$."])
            elif k < .6: self.emit([self.lab(), "$a"] + self.formula() + ["$."])
            elif k < .8: self.emit([self.lab(), "$p"] + self.formula() + ["$="] + r.choice([["?"], ["?", "?"] if self.bad else ["?"], ["(", ")", "?"]]) + ["$."])
            elif depth < (12 if self.big else 5):
                self.emit(["${"]); self.block(depth + 1, r.randint(0, 6)); self.emit(["$}"])
        self.vars.pop(); self.fs.pop()
    def newvars(self, n):
        r = self.r; vs = []
        for _ in range(n):
            old = sorted(self.used_vars - set(self.active()))
            if old and r.random() < .5: v = r.choice(old)      # redeclare a variable of a closed scope
            else: v = self.sym()
            if v in vs: continue
            self.used_vars.add(v); vs.append(v)
        self.vars[-1] += vs
        if not vs: return
        if r.random() < .3:
            for v in vs: self.emit(["$v", v, "$."])
        else: self.emit(["$v"] + vs + ["$."])
        r.shuffle(vs)
        for v in vs:
            if r.random() < .93: self.emit([self.lab(), "$f", r.choice(self.consts), v, "$."]); self.fs[-1].append(v)
    def formula(self):
        r = self.r
        f = [r.choice(self.consts)]; a = self.activef()
        for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
            f.append(r.choice(a) if a and r.random() < .6 else r.choice(self.consts))
        return f

def make(rng, **k): return SG(rng, **k).build()
if __name__ == "__main__":
    import sys, mmref
    for i in range(300):
        t = make(random.Random(i), big=i % 3 == 0); mmref.parse(t)
    print(t[:1500])
