#!/usr/bin/env python3
"""C11: WRITE SOURCE /EXTRACT yields a self-contained equivalent subset."""
from verify_common import *
import random, scopegen, c02, c05, c09, c10, fnmatch

def uses(db, s):
    """labels of $a/$p that the proof of s refers to (None if the proof is bad)"""
    try: d, root, unk = mmref.decode(db, s)
    except mmref.ProofError: return None
    return set(l for l in mmref.rpn_labels_dag(d, root) if l in db.by_label and db.by_label[l].type in "ap")

def listed(toks):
    """labels that appear in a proof, also those of steps that are not used"""
    if toks[:1] == ["("]: return set(toks[1:toks.index(")")])
    return set(toks)

def closure(db, labels):
    todo = list(labels); seen = set(labels)
    while todo:
        s = db.by_label[todo.pop()]
        if s.type != "p": continue
        for l in uses(db, s) or ():
            if l not in seen: seen.add(l); todo.append(l)
    return seen

def frame(s): return (s.type, s.math, [(h.type, h.label, h.math) for h in s.mhyps], sorted(s.mdv))

DECO = ("\n####", "\n#*#*", "\n=-=-", "\n-.-.")
def links(com, db, kept):
    """words of a description with the links to statements that are not in the extract made external"""
    parts = com.split("`")
    if len(parts) % 2 == 0: return None
    for i in range(0, len(parts), 2):
        def f(m):
            l = m.group(2)
            if m.group(1) == "~" or l not in db.by_label or db.by_label[l].type not in "ap" or l in kept: return m.group(0)
            return "%s ~ http://us.metamath.org/mpeuni/%s.html" % (l, l)
        parts[i] = re.sub(r"(?<!~)~([ \n]+)(?!~[ \n])([^ \n]+)(?=[ \n]|$)", f, parts[i])
    return "`".join(parts).split()

def unscope(rng, text):
    """cut the source after some scope and open that scope, so that its hypotheses and $d belong to the outermost level"""
    st = []; blocks = []
    for t, a, b, c in c05.tokens(text):
        if c: continue
        if t == "${": st.append((a, b))
        elif t == "$}" and st:
            o = st.pop()
            if not st and "$p" in text[o[1]:a] and "$d" in text[o[1]:a]: blocks.append((o, a))
    if not blocks: return text
    o, a = rng.choice(blocks[-4:])
    return text[:o[0]] + text[o[1]:a]

def dollar_t(rng, db):
    out = "\n$( $t\n"
    for x in list(db.consts) + list(db.allvars):
        q = '"' if "'" in x else "'"
        if q in x: continue
        out += 'htmldef %s%s%s as "%s";\n' % (q, x, q, "X")
    return out + "$)\n"

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        k = rng.random()
        if k < .25: text = scopegen.make(rng, comments=rng.random() < .3, bad=False)
        elif k < .3: text = c02.big_db(rng)[0]
        else:
            text, g, pr = mmgen.make_db(rng, None, comments=rng.random() < .3, desc=rng.random() < .7, nth=rng.randint(3, 20))
        if rng.random() < .25: text = unscope(rng, text)
        deco = rng.random() < .35
        if deco:
            text = c10.build(rng, text)
            if rng.random() < .3: text = re.sub(r"(?<=\s)~ (?=\w)", lambda m: rng.choice(["~ ", "~  ", "~\n     "]), text)
        if rng.random() < .5:      # links in descriptions
            labs = re.findall(r"(\S+)\s+\$[ap]\s", text)
            if labs: text = re.sub(r"(?<=\s)(theorem|holds|when\.|alpha|law,|Is)(?=\s)", lambda m: "~" + rng.choice([" "] * 6 + ["  ", "\n     "]) + rng.choice(labs) if rng.random() < .5 else m.group(0), text)
        if rng.random() < .3:
            try: t0 = mmref.parse(text)
            except mmref.MMError: return
            dt = dollar_t(rng, t0)
            k = rng.random(); spots = [m.end() for m in re.finditer(r"\$\.\n", text)] if "$(" not in text else []
            if k < .4 and spots: i = rng.choice(spots); text = text[:i] + dt + text[i:]
            else: text = text + dt if k < .7 else dt + text
        if rng.random() < .2: text = "$( set.mm - Version of 1-Jan-2020\n more $)\n" + text
        if deco and rng.random() < .5:      # an incomplete proof
            pass
        try: db = mmref.parse(text.replace("\r\n", "\n").replace("\r", "\n"))
        except mmref.MMError: res.count("skipped"); return
        A = db.asserts()
        if not A: return
        valid = {s.label: mmref.verify(db, s).ok if hasattr(mmref.verify(db, s), "ok") else None for s in A[:0]}
        k = rng.random()
        if k < .15: arg = "*"; sel = [s.label for s in A]
        elif k < .75:
            sel = sorted(set(rng.choice(A[len(A) // 2:] if rng.random() < .7 else A).label for _ in range(rng.choice([1, 1, 2, 3])))); arg = ",".join(sel)
        else:
            arg = rng.choice(A).label[:2] + "*" + ("," + rng.choice(A).label if rng.random() < .5 else "")
            sel = [s.label for s in A if any(re.fullmatch(p.replace(".", r"\.").replace("*", ".*"), s.label) for p in arg.split(","))]
        sc.write("a.mm", text)
        cmds = ["read a.mm", "write source p.mm /keep_includes", "verify proof *", "write source x.mm /extract %s" % arg, "write source q.mm", "verify proof *", "erase", "read x.mm", "verify proof *",
                "write source y.mm /extract %s" % arg]
        s = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        def bad(k, d): res.bad(k, d, files, cmds)
        if drive.READ_OK not in s.seg(0): return bad("read", s.seg(0))
        if sc.read("p.mm") != sc.read("q.mm"): bad("memory", "the database in memory changed")
        if s.seg(2) != s.seg(5): bad("memory-verify", "VERIFY PROOF * differs after the extraction")
        x = sc.read("x.mm")
        if x is None: return bad("no-output", s.seg(3))
        try: db2 = mmref.parse(x)
        except mmref.MMError as e: return bad("broken", "the extract is not well formed: %s\n%s" % (e, x[max(0, (e.pos or 0) - 300):(e.pos or 0) + 200]))
        if drive.READ_OK not in (s.seg(7) or ""): return bad("reread", "READ rejects the extract\n" + (s.seg(7) or ""))
        res.ev((arg, hash(text)), n=len(db2.stmts) - 1); res.count("extracts"); res.count("kept", len(db2.asserts())); res.count("dropped", len(A) - len(db2.asserts()))
        v1, v2 = s.seg(2), s.seg(8) or ""
        e1, e2 = set(error_labels(v1)), set(error_labels(v2)); u1, u2 = set(unproved(v1)), set(unproved(v2))
        # the assertions needed: the listed ones and everything their proofs refer to
        want = set()
        for l in sel:
            want |= closure(db, [l])
        have = [a.label for a in db2.asserts()]
        if not e1:
            if set(have) != want: bad("set", "/EXTRACT %s: missing %s, not needed %s" % (arg, sorted(want - set(have)), sorted(set(have) - want)))
        else:
            res.count("with-errors")
            if set(sel) - set(have): bad("listed-missing", "missing %s" % sorted(set(sel) - set(have)))
        if have != [a.label for a in A if a.label in set(have)]: bad("order", "assertions in another order")
        kept = set(q.label for q in db2.stmts[1:] if q.label)
        for a in db2.asserts():
            o = db.by_label.get(a.label)
            if o is not None and o.lcomment is not None and not any(z in o.lcomment for z in DECO + ("$[", "$j", "$t")):
                w = links(o.lcomment, db, kept)
                if w is not None:
                    res.ev(None); res.count("descriptions"); res.count("links-redirected", len(w) - len(o.lcomment.split()))
                    if (a.lcomment or "").split() != w: bad("description", "%s: %r became %r" % (a.label, o.lcomment, a.lcomment))
            if o is None: bad("invented", a.label); continue
            if frame(a) != frame(o): bad("frame", "%s: %s became %s" % (a.label, frame(o), frame(a)))
            if a.proof != o.proof: bad("proof", "%s: the proof changed" % a.label)
            for w, p, q in (("error", e1, e2), ("unproved", u1, u2)):
                if (a.label in p) != (a.label in q): bad("verdict", "%s: VERIFY PROOF gives another verdict (%s)\n%s" % (a.label, w, v2[-1500:]))
            od = set(p for p in o.odv); nd = set(a.odv)
            if nd - od: bad("dv", "%s: disjoint pairs %s were added" % (a.label, nd - od))
        m = re.search(r"Extracted (\d+) statements incl\. (\d+) \$a \((\d+) \"ax-\", (\d+) \"df-\"\), (\d+) \$p", drive.norm(s.seg(3)))
        unused = len(re.findall(r"\$\( Unused (?:constants|variables) to satisfy the htmldef's in the \$ t comment\. \$\)", x)) - len(re.findall(r"\$\( Unused (?:constants|variables) to satisfy the htmldef's in the \$ t comment\. \$\)", text))
        na = [a.label for a in db2.asserts() if a.type == "a"]
        if not m: bad("no-count", s.seg(3))
        elif [int(z) for z in m.groups()] != [len(db2.stmts) - 1 - unused, len(na), sum(l.startswith("ax-") for l in na), sum(l.startswith("df-") for l in na), len(have) - len(na)]: bad("count", "%s but the output has %d statements, %d $a, %d $p" % (m.group(0), len(db2.stmts) - 1 - unused, len(na), len(have) - len(na)))
        nt = lambda z: len(re.findall(r"\$\(\s+\$t\s", z))
        if nt(x) != nt(text): bad("dollar-t", "%d $t comments became %d" % (nt(text), nt(x)))
        # the symbols of the $t comment all stay declared
        miss = set(list(db.consts) + list(db.allvars)) - set(list(db2.consts) + list(db2.allvars))
        if miss: bad("undeclared", "symbols %s are no longer declared" % sorted(miss))
        # extracting the same labels from the extract keeps everything
        y = sc.read("y.mm")
        try: db3 = mmref.parse(y or "")
        except mmref.MMError as e: return bad("broken-again", "extracting from the extract: %s" % e)
        if not e1:
            k2 = lambda d: [(q.type, q.label, q.math, q.proof) for q in d.stmts[1:] if q.type not in "cv"]
            if k2(db3) != k2(db2): bad("not-stable", "extracting the same labels from the extract gives something else: %s" % (c10.cmp_items([("t", str(z)) for z in k2(db2)], [("t", str(z)) for z in k2(db3)], 0)))
        if res.sample is None: res.sample = {"extract": arg, "kept": have[:10], "of": len(A)}

if __name__ == "__main__":
    c = harness.Check("C11", assumptions=["proof references are decoded by lib/mmref.py"])
    ctx = {"bin": harness.build("plain")}
    c.run("extract", case, c.n(4000, 60000), ctx, "random databases (scopes, comments, headers, $t); random label lists; set of assertions, frames, proofs, verdicts, symbols, messages and the database in memory compared")
    c.finish(min_evals=1000)
