"""Decorations for generated databases: discouragement markers and mathboxes."""
import re
import mmref

USAGE = "(New usage is discouraged.)"; MODIF = "(Proof modification is discouraged.)"

def mark(rng, text, labels, marker):
    """give the statements with these labels a description that ends with the marker"""
    for l in labels:
        m = re.search(r"(?:^|(?<=[ \n\t]))%s[ \n\t]+\$[ap](?=[ \n\t])" % re.escape(l), text)
        if not m: continue
        w = rng.choice([" ", "\n", "  ", "\n     "])
        k = rng.random()
        mk = marker.replace(" ", rng.choice([" ", " ", "\n"]), 1) if k < .5 else marker
        # the marker may already be there with another one
        pre = text[:m.start()].rstrip()
        if pre.endswith("$)") and "discouraged" in pre[pre.rfind("$("):] and rng.random() < .9:
            a = pre.rfind("$)")
            text = text[:a] + mk + " " + text[a:]
        else:
            text = text[:m.start()] + "$( A description. %s %s$)%s" % (mk, rng.choice(["", "(Contributed by X, 1-Jan-2001.) "]), w) + text[m.start():]
    return text

def top_level(text):
    """offsets before outermost assertions and scopes"""
    out = []; depth = 0; pos = 0; comment = False; prev = None; start = None
    for m in re.finditer(r"[^ \t\n\r\f]+", text):
        t = m.group(0)
        if comment:
            if t == "$)": comment = False
            continue
        if t == "$(":
            comment = True
            if depth == 0 and start is None: start = m.start()
            continue
        if t == "${":
            if depth == 0: out.append(start if start is not None else m.start()); start = None
            depth += 1
        elif t == "$}": depth -= 1; start = None
        elif depth == 0:
            if t in ("$a", "$p") and prev: out.append(start if start is not None else prev); start = None
            elif t == "$.": start = None
            prev = m.start()
    return out

def mathboxes(rng, text, db, n=2):
    """insert a `mathbox` statement and n headings; returns the new text"""
    ps = [p for p in top_level(text) if re.search(r"\$p", text[:p])]
    if len(ps) < n + 1: return None
    c = sorted(rng.sample(ps, n + 1))
    wf = next(s for s in db.stmts[1:] if s.type == "p").math
    ins = []
    ins.append((c[0], "${\n  mathbox.1 $e %s $.\n  mathbox $p %s $= mathbox.1 $.\n$}\n" % (" ".join(wf), " ".join(wf))))
    for i, p in enumerate(c[1:]):
        ins.append((p, "$(\n%s\n        Mathbox for User %d\n%s\n$)\n" % ("#*#*" * 15, i + 1, "#*#*" * 15) if rng.random() < .5 else "$(\n%s\n  Mathbox for User%d\n%s\n$)\n" % ("=-=-" * 15, i + 1, "=-=-" * 15)))
    for p, t in sorted(ins, reverse=True): text = text[:p] + t + text[p:]
    return text

def effective(text, db):
    """(usage, modif): labels whose description, the last comment before the label, has the marker"""
    usage = set(); modif = set()
    for s in db.asserts():
        m = re.search(r"(?:^|(?<=[ \n\t]))%s(?:[ \n\t]+\$\(.*?\$\))*[ \n\t]+\$[ap](?=[ \n\t])" % re.escape(s.label), text)
        if not m: continue
        pre = text[:m.start()].rstrip(" \t\n\r\f")
        if not pre.endswith("$)"): continue
        c = " ".join(pre[pre.rfind("$(") + 2:-2].split())
        if USAGE in c: usage.add(s.label)
        if MODIF in c: modif.add(s.label)
    return usage, modif
