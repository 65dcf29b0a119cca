"""Proof and source mutators."""
import re, random
import mmref
from mmref import Dag

def dag_clone_replace(dag, root, f):
    """rebuild the tree replacing nodes by f(new_dag, label, kids, oldid) (may return None for default)"""
    nd = Dag(); memo = {}
    st = [(root, 0)]
    while st:
        i, k = st.pop()
        if i in memo: continue
        l, ks = dag.nodes[i]
        if k < len(ks): st.append((i, k + 1)); st.append((ks[k], 0)); continue
        kids = [memo[x] for x in ks]
        r = f(nd, l, kids, i)
        memo[i] = nd.add(l, kids) if r is None else r
    return nd, memo[root]

def typecode(db, l): 
    s = db.by_label.get(l)
    return s.math[0] if s else "?"

def mut_dag(rng, db, stmt, dag, root):
    """semantic mutation of a proof; returns (kind, dag, root)"""
    reach = []
    seen = set(); st = [root]
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i); reach.append(i); st.extend(dag.nodes[i][1])
    reach.sort()
    k = rng.choice(["swapkids", "replace", "replace", "rename", "other", "other", "unknown", "hyp"])
    if k == "swapkids":
        c = [i for i in reach if len(dag.nodes[i][1]) > 1]
        if not c: return None
        i = rng.choice(c); n = len(dag.nodes[i][1]); a, b = rng.sample(range(n), 2)
        def f(nd, l, kids, o):
            if o == i:
                kids = list(kids); kids[a], kids[b] = kids[b], kids[a]; return nd.add(l, kids)
        return (k,) + dag_clone_replace(dag, root, f)
    if k == "replace":
        i = rng.choice(reach); t = typecode(db, dag.nodes[i][0])
        c = [j for j in reach if j != i and typecode(db, dag.nodes[j][0]) == t]
        if rng.random() < .1: c = [j for j in reach if j != i]
        # donor must not contain i (would be a cycle in naming only; rebuilt separately)
        if not c: return None
        j = rng.choice(c)
        def f(nd, l, kids, o):
            if o == i: return copy_into(nd, dag, j)
        return (k,) + dag_clone_replace(dag, root, f)
    if k == "rename":
        fs = sorted({dag.nodes[i][0] for i in reach if db.by_label.get(dag.nodes[i][0]) is not None and db.by_label[dag.nodes[i][0]].type == "f"})
        if not fs: return None
        a = rng.choice(fs); t = typecode(db, a)
        allh = [h.label for h in stmt.mhyps + stmt.ohyps if h.type == "f" and h.math[0] == t and h.label != a]
        if not allh: return None
        b = rng.choice(allh); once = rng.random() < .4
        tgt = rng.choice([i for i in reach])
        def f(nd, l, kids, o):
            if l == a and (not once or True): return nd.add(b)
            return None
        if once:
            # rename below one random node only
            sub, sroot = dag_clone_replace(dag, tgt, f)
            def g(nd, l, kids, o):
                if o == tgt: return copy_into(nd, sub, sroot)
            return (k + "1",) + dag_clone_replace(dag, root, g)
        return (k,) + dag_clone_replace(dag, root, f)
    if k == "other":
        i = rng.choice(reach); l0, ks = dag.nodes[i]
        s0 = db.by_label.get(l0)
        if s0 is None: return None
        c = [s.label for s in db.stmts[1:stmt.num] if s.type in "ap" and len(s.mhyps) == len(ks) and s.label != l0 and s.math[0] == s0.math[0]]
        if s0.type in "ef": c = [h.label for h in stmt.mhyps + stmt.ohyps if h.label != l0 and h.math[0] == s0.math[0]] + [s.label for s in c and [] or []]
        if not c: return None
        b = rng.choice(c)
        def f(nd, l, kids, o):
            if o == i: return nd.add(b, kids)
        return (k,) + dag_clone_replace(dag, root, f)
    if k == "unknown":
        i = rng.choice(reach)
        def f(nd, l, kids, o):
            if o == i: return nd.add("?")
        return (k,) + dag_clone_replace(dag, root, f)
    if k == "hyp":
        # use a hypothesis of another statement or a future statement
        i = rng.choice(reach)
        c = [s.label for s in db.stmts[1:] if s.type in "ef" and s not in stmt.mhyps and s not in stmt.ohyps] + [s.label for s in db.stmts[stmt.num:] if s.type in "ap" and not s.mhyps]
        if not c: return None
        b = rng.choice(c)
        def f(nd, l, kids, o):
            if o == i: return nd.add(b)
        return (k,) + dag_clone_replace(dag, root, f)

def copy_into(nd, dag, root):
    memo = {}; st = [(root, 0)]
    while st:
        i, k = st.pop()
        if i in memo: continue
        l, ks = dag.nodes[i]
        if k < len(ks): st.append((i, k + 1)); st.append((ks[k], 0)); continue
        memo[i] = nd.add(l, [memo[x] for x in ks])
    return memo[root]

def mut_tokens(rng, db, stmt, toks):
    """syntactic mutation of proof tokens"""
    toks = list(toks)
    if not toks: return "ins", ["?"]
    comp = toks[0] == "(" and ")" in toks
    if comp and rng.random() < .75:
        k = toks.index(")")
        body = "".join(toks[k + 1:])
        op = rng.choice(["chg", "chg", "chg", "del", "ins", "swap", "dup", "trunc", "hi"])
        al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        if not body: return "none", toks
        p = rng.randrange(len(body))
        if op == "chg": body = body[:p] + rng.choice("ABCDEFGHIJ" if rng.random() < .7 else al + "?") + body[p + 1:]
        elif op == "del": body = body[:p] + body[p + 1:]
        elif op == "ins": body = body[:p] + rng.choice("ABCDEFGZ" if rng.random() < .7 else al + "?a0") + body[p:]
        elif op == "swap":
            q = rng.randrange(len(body)); b = list(body); b[p], b[q] = b[q], b[p]; body = "".join(b)
        elif op == "dup":
            q = min(len(body), p + rng.randint(1, 5)); body = body[:q] + body[p:q] + body[q:]
        elif op == "hi": body = body[:p] + rng.choice("UVWXY") + body[p:]
        else: body = body[:p]
        return "c-" + op, toks[:k + 1] + ([body] if body else [])
    labels = [s.label for s in db.stmts[1:] if s.label]
    def anylab():
        r = rng.random()
        if r < .4: return rng.choice([s.label for s in db.stmts[1:stmt.num + 1] if s.label])
        if r < .7 and (stmt.mhyps or stmt.ohyps): return rng.choice(stmt.mhyps + stmt.ohyps).label
        if r < .8: return "?"
        if r < .85: return "nosuchlabel"
        if r < .9: return stmt.label
        return rng.choice(labels)
    op = rng.choice(["rep", "rep", "rep", "del", "dup", "swap", "ins", "trunc"])
    p = rng.randrange(len(toks))
    if comp: p = rng.randrange(toks.index(")") + 1)
    if op == "rep":
        t = toks[p]
        m = re.match(r"^(.*[:=])([^:=]+)$", t)
        toks[p] = (m.group(1) if m else "") + anylab()
    elif op == "del": del toks[p]
    elif op == "dup": toks.insert(p, toks[p])
    elif op == "swap":
        q = rng.randrange(len(toks)); toks[p], toks[q] = toks[q], toks[p]
    elif op == "ins": toks.insert(p, anylab())
    else: toks = toks[:max(1, p)]
    return "t-" + op, toks
