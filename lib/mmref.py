"""Independent reference implementation of the Metamath language (parser, frames,
proof decoding, verification, proof encoding).  Written from the language
definition, not from the program under test."""
import re, os

WS = " \t\n\r\f"

class Stmt:
    __slots__ = ("num", "type", "label", "math", "proof", "pos", "file", "line", "comment", "lcomment",
                 "mhyps", "mdv", "ohyps", "odv", "mvars", "scope_vars", "proof_text", "pinfo", "blk", "kpos")
    def __init__(self, num, type, label):
        self.num = num; self.type = type; self.label = label
        self.math = []; self.proof = None; self.proof_text = None
        self.mhyps = []; self.mdv = set(); self.ohyps = []; self.odv = set(); self.mvars = []
        self.comment = ""; self.lcomment = None; self.pos = 0; self.line = 0; self.file = None; self.pinfo = None; self.blk = 0
    def __repr__(self):
        return "<%s %s %s>" % (self.num, self.label, self.type)

class MMError(Exception):
    def __init__(self, rule, pos=None, msg=""):
        Exception.__init__(self, "%s @%s %s" % (rule, pos, msg))
        self.rule = rule; self.pos = pos

LABEL_RE = re.compile(r"^[A-Za-z0-9_.\-]+$")

def pair(a, b):
    return (a, b) if a < b else (b, a)

def tokens_pos(text):
    for m in re.finditer(r"[^ \t\n\r\f]+", text):
        yield m.group(0), m.start()

def strip_comments(text):
    """Return list of (token, pos, comment_before) ; raises MMError."""
    out = []
    inc = False; cstart = 0
    pending = None; cbeg = 0
    for t, p in tokens_pos(text):
        if inc:
            if t == "$)":
                inc = False
                pending = text[cbeg:p]
            elif "$(" in t or "$)" in t:
                raise MMError("bad-comment", p, t)
            for ch in t:
                if not (33 <= ord(ch) <= 126): raise MMError("bad-char", p)
            continue
        if t == "$(":
            inc = True; cstart = p; cbeg = p + 2
            continue
        if t == "$)":
            raise MMError("stray-comment-end", p)
        for ch in t:
            if not (33 <= ord(ch) <= 126):
                raise MMError("bad-char", p)
        out.append((t, p, pending)); pending = None
    if inc:
        raise MMError("unclosed-comment", cstart)
    return out

class DB:
    """Parsed database. stmts[1..] in source order, as metamath numbers them."""
    def __init__(self):
        self.stmts = [None]
        self.by_label = {}
        self.consts = {}      # symbol -> decl order
        self.allvars = {}     # symbol -> decl order
        self.symorder = {}
    def asserts(self):
        return [s for s in self.stmts[1:] if s.type in "ap"]

def parse(text):
    toks = strip_comments(text)
    for t, p, c in toks:
        if t in ("$[", "$]"):
            raise MMError("include-not-expanded", p)
    db = DB()
    n = len(toks); i = 0
    # scope stacks
    var_stack = [[]]; dv_stack = [[]]; hyp_stack = [[]]
    active_vars = set()
    math_syms = set()
    labels_used = set()
    # collect all math symbols for label clash test
    def line(p): return text.count("\n", 0, p) + 1
    def rd_until(end, i0, what):
        j = i0; r = []
        while True:
            if j >= n: raise MMError("unterminated-" + what, toks[i0 - 1][1])
            t, p, c = toks[j]
            if t == end: return r, j + 1
            if t.startswith("$") :
                raise MMError("bad-keyword-in-" + what, p, t)
            if "$" in t: raise MMError("dollar-in-token", p, t)
            r.append((t, p)); j += 1
    pend_label = None; pend_lpos = None; pend_comment = None; pend_lcom = None
    while i < n:
        t, p, cm = toks[i]
        if cm is not None: pend_comment = cm
        if t in ("$c", "$v", "$d", "${", "$}"):
            if pend_label is not None: raise MMError("label-not-allowed", pend_lpos)
            s = Stmt(len(db.stmts), {"${": "{", "$}": "}"}.get(t, t[1]), None)
            s.pos = s.kpos = p; s.line = line(p)
            db.stmts.append(s); i += 1
            pend_comment = None
            if t == "${":
                var_stack.append([]); dv_stack.append([]); hyp_stack.append([])
                continue
            if t == "$}":
                if len(var_stack) == 1: raise MMError("extra-scope-end", p)
                for v in var_stack.pop(): active_vars.discard(v)
                dv_stack.pop(); hyp_stack.pop()
                continue
            syms, i = rd_until("$.", i, t[1])
            s.math = [x for x, _ in syms]
            if not syms: raise MMError("empty-decl", p)
            if t == "$c":
                if len(var_stack) > 1: raise MMError("c-in-scope", p)
                for x, q in syms:
                    if x in db.consts: raise MMError("dup-const", q)
                    if x in db.allvars: raise MMError("const-was-var", q)
                    if x in labels_used: raise MMError("sym-is-label", q)
                    db.consts[x] = len(db.consts); db.symorder[x] = len(db.symorder)
            elif t == "$v":
                for x, q in syms:
                    if x in active_vars: raise MMError("dup-var", q)
                    if x in db.consts: raise MMError("var-was-const", q)
                    if x in labels_used: raise MMError("sym-is-label", q)
                    active_vars.add(x); var_stack[-1].append(x)
                    if x not in db.allvars:
                        db.allvars[x] = len(db.allvars); db.symorder[x] = len(db.symorder)
            else:
                if len(syms) < 2: raise MMError("d-too-short", p)
                seen = set()
                for x, q in syms:
                    if x not in active_vars: raise MMError("d-not-var", q)
                    if x in seen: raise MMError("d-dup", q)
                    seen.add(x)
                xs = [x for x, _ in syms]
                for a in range(len(xs)):
                    for b in range(a + 1, len(xs)):
                        dv_stack[-1].append(pair(xs[a], xs[b]))
            continue
        if t in ("$f", "$e", "$a", "$p"):
            if pend_label is None: raise MMError("missing-label", p)
            s = Stmt(len(db.stmts), t[1], pend_label)
            s.pos = pend_lpos; s.kpos = p; s.line = line(pend_lpos)
            s.comment = pend_comment or ""; s.lcomment = pend_lcom
            pend_comment = None
            if pend_label in db.by_label: raise MMError("dup-label", pend_lpos)
            if pend_label in db.consts or pend_label in db.allvars: raise MMError("label-is-sym", pend_lpos)
            pend_label = None
            db.stmts.append(s)
            if t == "$p":
                syms, i = rd_until("$=", i + 1, "p")
                pstart = toks[i - 1][1] + 2
                pr, i = rd_until("$.", i, "proof")
                s.proof = [x for x, _ in pr]
                s.proof_text = (pstart, toks[i - 1][1])
                s.pinfo = pr
            else:
                syms, i = rd_until("$.", i + 1, t[1])
            s.math = [x for x, _ in syms]
            if not syms: raise MMError("empty-math", p)
            for x, q in syms:
                if x not in db.consts and x not in active_vars:
                    raise MMError("undeclared-sym", q, x)
            if s.math[0] not in db.consts: raise MMError("first-not-const", syms[0][1])
            if t == "$f":
                if len(syms) != 2: raise MMError("f-length", p)
                if s.math[1] in db.consts: raise MMError("f-not-var", syms[1][1])
                for h in (h for lvl in hyp_stack for h in lvl):
                    if h.type == "f" and h.math[1] == s.math[1]:
                        raise MMError("dup-active-f", syms[1][1])
            acth = [h for lvl in hyp_stack for h in lvl]
            if t != "$f":
                fv = {h.math[1] for h in acth if h.type == "f"}
                for x, q in syms:
                    if x in active_vars and x not in fv: raise MMError("var-without-f", q, x)
            db.by_label[s.label] = s; labels_used.add(s.label)
            if t in ("$f", "$e"):
                hyp_stack[-1].append(s)
            else:
                mv = set(x for x in s.math if x in active_vars)
                for h in acth:
                    if h.type == "e":
                        mv.update(x for x in h.math if x in active_vars)
                s.mvars = mv
                for h in acth:
                    if h.type == "e" or h.math[1] in mv: s.mhyps.append(h)
                    else: s.ohyps.append(h)
                for lvl in dv_stack:
                    for a, b in lvl:
                        (s.mdv if a in mv and b in mv else s.odv).add((a, b))
                s.scope_vars = set(active_vars)
            continue
        if t.startswith("$"):
            raise MMError("unexpected-keyword", p, t)
        if pend_label is not None: raise MMError("two-labels", p)
        if not LABEL_RE.match(t): raise MMError("bad-label", p, t)
        pend_label = t; pend_lpos = p; pend_lcom = cm; i += 1
    if pend_label is not None: raise MMError("label-at-end", pend_lpos)
    if len(var_stack) > 1: raise MMError("unclosed-scope", len(text))
    return db

# ---------------------------------------------------------------- proofs

class ProofError(Exception):
    def __init__(self, kind, msg=""):
        Exception.__init__(self, kind + " " + msg); self.kind = kind

class Dag:
    """hash-consed proof nodes: key (label, child ids); '?' nodes are ('?',())"""
    def __init__(self):
        self.nodes = []; self.index = {}
    def add(self, label, kids=()):
        k = (label, tuple(kids))
        i = self.index.get(k)
        if i is None:
            i = len(self.nodes); self.nodes.append(k); self.index[k] = i
        return i

def dag_key(dag, root, memo=None):
    """canonical structural hash usable across dags"""
    import hashlib
    memo = {}
    for i, (l, ks) in enumerate(dag.nodes):
        memo[i] = hashlib.sha1((l + "(" + ",".join(memo[k] for k in ks) + ")").encode()).hexdigest()
    return memo[root]

def rpn_of(dag, root, limit=2000000):
    out = []; st = [(root, 0)]
    while st:
        i, k = st.pop()
        l, ks = dag.nodes[i]
        if k < len(ks):
            st.append((i, k + 1)); st.append((ks[k], 0))
        else:
            out.append(l)
            if len(out) > limit: raise ProofError("too-long")
    return out

def _apply(db, stmt, stack, label, dag):
    s = db.by_label.get(label)
    if s is None: raise ProofError("unknown-label", label)
    if s.num >= stmt.num: raise ProofError("future-label", label)
    if s.type in "ef":
        if s not in stmt.mhyps and s not in stmt.ohyps: raise ProofError("inactive-hyp", label)
        return dag.add(label)
    n = len(s.mhyps)
    if len(stack) < n: raise ProofError("stack-underflow", label)
    kids = stack[len(stack) - n:]
    del stack[len(stack) - n:]
    return dag.add(label, kids)

def decode(db, stmt, toks=None):
    """decode proof tokens -> (dag, root, has_unknown). Raises ProofError."""
    if toks is None: toks = stmt.proof
    if not toks: raise ProofError("empty")
    if toks[0].startswith("("):
        return decode_compressed(db, stmt, toks)
    return decode_normal(db, stmt, toks)

def split_proof_tokens(toks):
    out = []
    for t in toks:
        out += [x for x in re.split(r"([:=])", t) if x != ""]
    return out

def decode_normal(db, stmt, toks):
    toks = split_proof_tokens(toks)
    dag = Dag(); stack = []; local = {}; unk = False
    # step tokens: [target =] [lbl :] label   or   [lbl :] [target =] label
    i = 0; n = len(toks); explicit = "=" in toks
    targets = {}
    stack_t = []   # targets parallel to stack
    while i < n:
        tgt = None; loc = None
        while i + 1 < n and toks[i + 1] in (":", "="):
            if toks[i] in (":", "="): raise ProofError("syntax")
            if toks[i + 1] == ":":
                if loc is not None: raise ProofError("syntax")
                loc = toks[i]
            else:
                if tgt is not None: raise ProofError("syntax")
                tgt = toks[i]
            i += 2
        if i >= n: raise ProofError("syntax")
        t = toks[i]; i += 1
        if t in (":", "="): raise ProofError("syntax")
        if explicit and tgt is None: raise ProofError("missing-target")
        if t == "?":
            unk = True
            nd = dag.add("?")
            if loc is not None: raise ProofError("label-on-unknown")
        elif t in local:
            if loc is not None: raise ProofError("label-on-local")
            nd = local[t]
        else:
            s = db.by_label.get(t)
            if s is not None and s.type in "ap" and s.num < stmt.num:
                m = len(s.mhyps)
                if len(stack) < m: raise ProofError("stack-underflow", t)
                kids = stack[len(stack) - m:]; tg = stack_t[len(stack) - m:]
                del stack[len(stack) - m:]; del stack_t[len(stack_t) - m:]
                if explicit and m:
                    want = [h.label for h in s.mhyps]
                    if sorted(want) != sorted(tg): raise ProofError("bad-targets", t)
                    kids = [kids[tg.index(w)] for w in want]
                nd = dag.add(t, kids)
            else:
                nd = _apply(db, stmt, stack, t, dag)
                if loc is not None: raise ProofError("label-on-hyp")
            if loc is not None:
                if loc in local or not LABEL_RE.match(loc): raise ProofError("bad-local-label")
                q = db.by_label.get(loc)
                if q is not None and (q.type in "ap" and q.num <= stmt.num or q in stmt.mhyps or q in stmt.ohyps):
                    raise ProofError("local-label-clash")
                local[loc] = nd
        stack.append(nd); stack_t.append(tgt)
    if len(stack) != 1: raise ProofError("stack-depth", str(len(stack)))
    return dag, stack[0], unk

def decode_compressed(db, stmt, toks):
    # the "(" and ")" may be glued to their neighbours
    txt = " ".join(toks)
    txt = txt[1:]
    if ")" not in txt: raise ProofError("no-close-paren")
    lab, body = txt.split(")", 1)
    labels = lab.split()
    letters = "".join(body.split())
    dag = Dag(); unk = False
    mand = [h.label for h in stmt.mhyps]
    table = []
    for l in labels:
        s = db.by_label.get(l)
        if s is None: raise ProofError("unknown-label", l)
        if l in mand: raise ProofError("mandatory-in-list", l)
        if s.type in "ap":
            if s.num >= stmt.num: raise ProofError("future-label", l)
        elif s not in stmt.ohyps: raise ProofError("inactive-hyp", l)
        table.append(l)
    full = mand + table
    saved = []; stack = []; last = None
    n = 0; mid = False
    if "UV" in letters and "UU" not in letters: raise ProofError("obsolete-compression")
    for ch in letters:
        if "U" <= ch <= "Y":
            n = n * 5 + (ord(ch) - 84); mid = True
        elif "A" <= ch <= "T":
            v = n * 20 + (ord(ch) - 65); n = 0; mid = False
            if v < len(full):
                last = _apply(db, stmt, stack, full[v], dag)
            elif v - len(full) < len(saved):
                last = saved[v - len(full)]
            else: raise ProofError("letter-range")
            stack.append(last)
        elif ch == "Z":
            if mid or last is None: raise ProofError("bad-Z")
            saved.append(last)
        elif ch == "?":
            if mid: raise ProofError("bad-?")
            last = dag.add("?"); stack.append(last); unk = True
        else: raise ProofError("bad-char", ch)
    if mid: raise ProofError("mid-number")
    if len(stack) != 1: raise ProofError("stack-depth", str(len(stack)))
    return dag, stack[0], unk

def subst(math, sigma):
    out = []
    for t in math:
        r = sigma.get(t)
        if r is None: out.append(t)
        else: out.extend(r)
    return out

class Verdict:
    def __init__(self): self.ok = False; self.kind = None; self.dv = []; self.exprs = None; self.dag = None; self.root = None; self.steps = None

def verify(db, stmt, toks=None, allow_empty_reason=None):
    """-> Verdict: .kind in ok, incomplete, or an error kind. dv violations are listed in .dv"""
    v = Verdict()
    try:
        dag, root, unk = decode(db, stmt, toks)
    except ProofError as e:
        v.kind = e.kind; return v
    v.dag, v.root = dag, root
    return verify_dag(db, stmt, dag, root, unk, v)

def verify_dag(db, stmt, dag, root, unk=False, v=None):
    if v is None: v = Verdict()
    v.dag, v.root = dag, root
    exprs = [None] * len(dag.nodes)
    alldv = stmt.mdv | stmt.odv
    reach = set(); st = [root]
    while st:
        i = st.pop()
        if i in reach: continue
        reach.add(i); st.extend(dag.nodes[i][1])
    bad = None
    for i, (l, ks) in enumerate(dag.nodes):
        if i not in reach: continue
        if l == "?": continue
        s = db.by_label[l]
        if s.type in "ef":
            exprs[i] = s.math; continue
        if any(exprs[k] is None for k in ks): continue
        sigma = {}
        for h, k in zip(s.mhyps, ks):
            if h.type == "f":
                e = exprs[k]
                if e[0] != h.math[0]: bad = bad or ("type-mismatch", l); break
                sigma[h.math[1]] = e[1:]
        else:
            okh = True
            for h, k in zip(s.mhyps, ks):
                if h.type == "e" and subst(h.math, sigma) != exprs[k]:
                    bad = bad or ("hyp-mismatch", l); okh = False; break
            if okh:
                for a, b in sorted(s.mdv):
                    va = [t for t in sigma[a] if t in db.allvars]
                    vb = [t for t in sigma[b] if t in db.allvars]
                    for x in va:
                        for y in vb:
                            if x == y: v.dv.append((l, a, b, x, y))
                            elif pair(x, y) not in alldv: v.dv.append((l, a, b) + pair(x, y))
                exprs[i] = subst(s.math, sigma)
    v.exprs = exprs
    if bad: v.kind = bad[0]; return v
    if unk: v.kind = "incomplete"
    elif exprs[root] != stmt.math: v.kind = "wrong-result"
    elif v.dv: v.kind = "dv"
    else: v.kind = "ok"; v.ok = True
    if v.dv and unk: v.kind = "incomplete-dv"
    return v

# ---------------------------------------------------------------- encoders

def letters_of(n):
    """compressed code of 0-based label number n"""
    s = chr(65 + n % 20); n //= 20
    while n:
        n -= 1
        s = chr(85 + n % 5) + s; n //= 5
    return s

def enc_normal(dag, root):
    return rpn_of(dag, root)

def use_counts(dag, root):
    cnt = {}
    st = [root]; seen = set()
    cnt[root] = 1
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i)
        for k in dag.nodes[i][1]:
            cnt[k] = cnt.get(k, 0) + 1
            st.append(k)
    return cnt

def enc_compressed(db, stmt, dag, root, rng=None, share=1.0, extra_labels=()):
    mand = [h.label for h in stmt.mhyps]
    order = []; seen = set(mand)
    for l in rpn_labels_dag(dag, root):
        if l not in seen and l != "?": seen.add(l); order.append(l)
    for l in extra_labels:
        if l not in seen: seen.add(l); order.append(l)
    if rng and rng.random() < .5: rng.shuffle(order)
    idx = {l: k for k, l in enumerate(mand + order)}
    base = len(idx)
    cnt = use_counts(dag, root)
    saved = {}; out = []
    st = [(root, 0)]
    while st:
        i, k = st.pop()
        l, ks = dag.nodes[i]
        if k == 0 and i in saved:
            out.append(letters_of(base + saved[i])); continue
        if k < len(ks):
            st.append((i, k + 1)); st.append((ks[k], 0)); continue
        if l == "?": out.append("?"); continue
        out.append(letters_of(idx[l]))
        if cnt[i] > 1 and db.by_label[l].type in "ap" and i not in saved:
            if (ks or (rng and rng.random() < .2)) and (rng is None or share >= 1 or rng.random() < share):
                saved[i] = len(saved); out.append("Z")
    return ["("] + order + [")"], "".join(out)

def rpn_labels_dag(dag, root):
    """labels in order of first use"""
    out = []; seen = set(); done = set()
    st = [(root, 0)]
    while st:
        i, k = st.pop()
        if i in done: continue
        l, ks = dag.nodes[i]
        if k < len(ks): st.append((i, k + 1)); st.append((ks[k], 0))
        else:
            done.add(i)
            if l not in seen: seen.add(l); out.append(l)
    return out

def enc_packed(db, stmt, dag, root, explicit=False, rng=None, names=None, perm=None):
    orders = []
    cnt = use_counts(dag, root)
    saved = {}; out = []
    st = [(root, 0, stmt.label)]
    ctr = [0]
    while st:
        i, k, tgt = st.pop()
        l, ks = dag.nodes[i]
        pre = (tgt + "=") if explicit else ""
        if k == 0 and i in saved:
            out.append(pre + saved[i]); continue
        if k < len(ks):
            st.append((i, k + 1, tgt))
            if perm is not None:
                if k == 0:
                    o = list(range(len(ks))); perm.shuffle(o); orders.append(o)
                j = orders[-1][k]
                if k == len(ks) - 1: orders.pop()
            else: j = k
            st.append((ks[j], 0, db.by_label[l].mhyps[j].label)); continue
        if l != "?" and cnt[i] > 1 and ks and db.by_label[l].type in "ap" and names is not False:
            ctr[0] += 1
            nm = str(ctr[0])
            while nm in db.by_label: ctr[0] += 1; nm = str(ctr[0])
            saved[i] = nm
            out.append(nm + ":" + pre + l)
        else:
            out.append(pre + l)
    return out

def expand_includes(path, base=None, seen=None):
    raise NotImplementedError

# ---------------------------------------------------------------- stored step sequences

class Step:
    """one step of a proof as stored: label ('?' unknown, None for a reference), ref = index of the step referred to"""
    __slots__ = ("label", "ref", "kids", "parent", "target", "depth", "expr", "ess")
    def __init__(self, label, ref=None):
        self.label = label; self.ref = ref; self.kids = []; self.parent = None; self.target = None; self.depth = 0; self.expr = None; self.ess = True

def raw_steps(db, stmt, toks=None):
    """the sequence of stored steps of a valid proof (explicit proofs must have their hypotheses in order)"""
    if toks is None: toks = stmt.proof
    out = []
    if toks[0].startswith("("):
        txt = " ".join(toks)[1:]; labels, body = txt.split(")", 1)
        full = [h.label for h in stmt.mhyps] + labels.split()
        saved = []; n = 0; last = None
        for ch in "".join(body.split()):
            if "U" <= ch <= "Y": n = n * 5 + ord(ch) - 84
            elif "A" <= ch <= "T":
                v = n * 20 + ord(ch) - 65; n = 0
                if v < len(full): out.append(Step(full[v])); last = len(out) - 1
                else: out.append(Step(None, saved[v - len(full)]))
            elif ch == "Z": saved.append(len(out) - 1 if out[-1].ref is None else out[-1].ref)
            elif ch == "?": out.append(Step("?"))
    else:
        t = split_proof_tokens(toks); loc = {}; i = 0
        while i < len(t):
            nm = None
            while i + 1 < len(t) and t[i + 1] in ":=":
                if t[i + 1] == ":": nm = t[i]
                i += 2
            l = t[i]; i += 1
            if l in loc: out.append(Step(None, loc[l]))
            else: out.append(Step(l))
            if nm is not None: loc[nm] = len(out) - 1
    return out

def link_steps(db, stmt, steps):
    """children, targets, depths, formulas, essential flags of a step sequence; formula None where it depends on unknown steps"""
    stack = []
    for i, s in enumerate(steps):
        if s.ref is not None: s.expr = steps[s.ref].expr
        elif s.label != "?":
            q = db.by_label[s.label]
            if q.type in "ef": s.expr = q.math
            else:
                n = len(q.mhyps); s.kids = stack[len(stack) - n:] if n else []
                if n: del stack[len(stack) - n:]
                for h, k in zip(q.mhyps, s.kids): steps[k].parent = i; steps[k].target = h.label
                if all(steps[k].expr is not None for k in s.kids):
                    sg = {h.math[1]: steps[k].expr[1:] for h, k in zip(q.mhyps, s.kids) if h.type == "f"}
                    s.expr = subst(q.math, sg)
        stack.append(i)
    assert len(stack) == 1
    steps[-1].target = stmt.label
    for i in range(len(steps) - 1, -1, -1):
        s = steps[i]
        if s.parent is not None:
            p = steps[s.parent]; s.depth = p.depth + 1
            s.ess = p.ess and db.by_label[s.target].type == "e"
    return steps
