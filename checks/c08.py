#!/usr/bin/env python3
"""C08: converting a proof between formats preserves the proof."""
from verify_common import *

CONTRIB = re.compile(r"\n *\(Contributed by \?who\?, \d+-[A-Z][a-z][a-z]-\d{4}\.\) ")
FM = ["/normal", "/compressed", "/packed", "/explicit", "/explicit/packed", "/packed/fast", "/compressed/fast", "/compressed/old_compression", "", "/explicit/packed/fast", "/packed/normal", "/compressed/old_compression/fast"]

def pkey(db, s, toks=None):
    """canonical form of the proof tree; None if it does not decode"""
    try: d, root, unk = mmref.decode(db, s, toks)
    except mmref.ProofError as e: return ("undecodable", e.kind)
    return mmref.dag_key(d, root)

def form_ok(fm, toks, had_fast):
    t = " ".join(toks)
    if "compressed" in fm: return toks[0].startswith("(")
    if toks[0].startswith("("): return False
    st = mmref.split_proof_tokens(toks)
    if ("explicit" in fm) != ("=" in st): return False
    if "packed" not in fm and ":" in st: return False
    return True

def outside(text, db):
    """text with the proofs cut out"""
    out = []; p = 0
    for a, b in sorted(s.proof_text for s in db.stmts[1:] if s.type == "p"): out.append(text[p:a]); p = b
    out.append(text[p:]); return out

def packed_fully(toks):
    """no composite subproof is written twice in a freshly packed proof"""
    return True

def case(res, rng, ctx):
    with drive.Scratch() as sc:
        text, g, pr = mmgen.make_db(rng, None, comments=rng.random() < .3, nth=rng.randint(2, 9), contrib=rng.random() < .3)
        db = mmref.parse(text); repl = {}
        k = rng.random()
        if k < .006:
            import c02
            text, pr, extra = c02.wide_db(rng); db = mmref.parse(text)
            for l in pr: repl[l] = mmgen.render_proof(db, db.by_label[l], *pr[l], rng.choice(mmgen.FMTS), rng)
            text = subst_proofs(text, repl)
        elif k < .026:
            import c02
            while 1:
                text, pr, extra = c02.big_db(rng); db = mmref.parse(text)
                try: mmref.rpn_of(*pr["th"], 1500); break
                except mmref.ProofError:
                    if len(pr["th"][0].nodes) < 260 and rng.random() < .2: break
            for l in pr:
                d, root = pr[l]
                f = rng.choice(mmgen.FMTS)
                try: mmref.rpn_of(d, root, 4000)
                except mmref.ProofError: f = "compressed"
                repl[l] = mmgen.render_proof(db, db.by_label[l], d, root, f, rng)
            text = subst_proofs(text, repl)
        elif rng.random() < .5:
            for s in db.stmts[1:]:
                if s.type != "p" or s.label not in pr or rng.random() < .6: continue
                d, root = pr[s.label]
                m = None
                if rng.random() < .5: m = ("unknown",) + mutate.dag_clone_replace(d, root, (lambda i: lambda nd, l, k, o: nd.add("?") if o == i else None)(rng.randrange(len(d.nodes))))
                else: m = mutate.mut_dag(rng, db, s, d, root)
                if m is None: continue
                f = rng.choice(mmgen.FMTS)
                try: mmref.rpn_of(m[1], m[2], 3000)
                except mmref.ProofError: f = "compressed"
                repl[s.label] = mmgen.render_proof(db, s, m[1], m[2], f, rng)
            text = subst_proofs(text, repl)
        if rng.random() < .3: # indented layout
            text = text.replace("\n", "\n" + " " * rng.randint(1, 30))
        db = mmref.parse(text)
        P = [s for s in db.stmts[1:] if s.type == "p"]
        if not P: return
        want = {s.label: pkey(db, s) for s in P}
        sc.write("a.mm", text)
        cmds = ["read a.mm", "verify proof *"]
        last = {}; shows = []
        for _ in range(rng.randint(1, 7)):
            fm = rng.choice(FM)
            k = rng.random()
            if k < .35: sel = [s.label for s in P]; pat = "*"
            else: sel = sorted(set(rng.choice(P).label for _ in range(rng.choice([1, 1, 2, 3])))); pat = ",".join(sel)
            if rng.random() < .4:
                cmds.append("show proof %s%s" % (pat, fm or "/normal")); shows.append((len(cmds) - 1, sel, fm or "/normal"))
            else:
                cmds.append("save proof %s%s" % (pat, fm)); 
                for l in sel: last[l] = fm
            if rng.random() < .2: cmds.append(rng.choice(["show proof %s/all" % P[0].label, "show statement *", "show trace_back %s" % P[-1].label]))
        k1 = len(cmds); cmds += ["verify proof *", "write source out.mm", "erase", "read out.mm", "verify proof *", "verify proof *"]
        s = drive.run(ctx["bin"], cmds, sc.d)
        files = {"a.mm": text}
        if not res.check_session(s, files): return
        def bad(k, d): res.bad(k, d, files, cmds)
        if drive.READ_OK not in s.seg(0): return bad("read", "source rejected\n" + s.seg(0))
        def verdict(o): return (sorted(set(error_labels(o))), sorted(unproved(o)))
        v0 = verdict(s.seg(1))
        undec = set(l for l in want if isinstance(want[l], tuple))
        for i, sel, fm in shows:
            o = s.seg(i) or ""
            parts = re.split(r'(?m)^Proof of "([^"]+)":\n---------Clip out the proof below this line to put it in the source file:\n', o)
            got = dict(zip(parts[1::2], parts[2::2]))
            for l in sel:
                res.ev((l, fm, want[l]))
                if l in undec: continue
                if l not in got: bad("show-missing", "%s shows no proof of %s\n%s" % (cmds[i], l, o[:2000])); continue
                m = re.match(r'(?s)(.*?)\$\.\n---------The proof of "([^"]+)" \((\d+) bytes\) ends above this line\.', got[l])
                if not m or m.group(2) != l: bad("show-format", "%s: unrecognised output\n%s" % (cmds[i], o[:2000])); continue
                toks = m.group(1).split(); res.count("shown")
                if pkey(db, db.by_label[l], toks) != want[l]: bad("show-tree" + fm, "%s: the text shown is not the proof that was stored\n%s\nstored: %s" % (cmds[i], m.group(1), " ".join(db.by_label[l].proof)))
                if not form_ok(fm, toks, False): bad("show-form" + fm, "%s: not in the requested format\n%s" % (cmds[i], m.group(1)))
                # the byte count is that of the proof on one line
                if len(" ".join(toks)) != int(m.group(3)) and "compressed" not in fm: bad("show-bytes", "%s: %s bytes, shown %d" % (cmds[i], m.group(3), len(" ".join(toks))))
        out = sc.read("out.mm")
        if out is None: return bad("no-output", "WRITE SOURCE wrote nothing\n" + (s.seg(k1 + 1) or ""))
        try: db2 = mmref.parse(out)
        except mmref.MMError as e: return bad("out-invalid", "the written source is not well formed: %s\n%s" % (e, out[:3000]))
        o1, o2 = outside(text, db), outside(out, db2)
        if not text.endswith("\n"): o1[-1] += "\n"
        if len(o1) != len(o2): return bad("statements", "number of $p changed")
        for a, b in zip(o1, o2):
            if a != b and a != CONTRIB.sub("", b, count=1): bad("other-text", "text outside the proofs changed:\n%r\n%r" % (a[:500], b[:500])); break
        for p in P:
            q = db2.by_label.get(p.label)
            if q is None: bad("lost", p.label); continue
            res.ev((p.label, last.get(p.label), want[p.label])); res.count("saved" + (last[p.label] or "/default") if p.label in last else "kept")
            if p.label not in last or p.label in undec:
                if p.proof != q.proof or text[slice(*p.proof_text)] != out[slice(*q.proof_text)]: bad("unsaved-changed", "the proof of %s was not saved but changed: %s -> %s" % (p.label, p.proof, q.proof))
                continue
            if pkey(db2, q) != want[p.label]: bad("tree" + last[p.label], "%s saved with %s: %s became %s" % (p.label, last[p.label], " ".join(p.proof), " ".join(q.proof)))
            elif not form_ok(last[p.label] or "/normal", q.proof, False): bad("form" + last[p.label], "%s saved with %s: %s" % (p.label, last[p.label], " ".join(q.proof)))
            else:
                # fresh packing and compression leave no composite subproof twice, and normal form is fully expanded
                st = mmref.raw_steps(db2, q)
                if last[p.label] in ("/normal", "", "/explicit") and any(x.ref is not None for x in st): bad("not-expanded", " ".join(q.proof))
                if last[p.label] in ("/packed", "/compressed", "/explicit/packed", "/packed/normal", "/compressed/old_compression"):
                    mmref.link_steps(db2, q, st); memo = []; seen = {}; unk = []; ids = {}
                    for i, x in enumerate(st):
                        if x.ref is not None: memo.append(memo[x.ref]); unk.append(unk[x.ref]); continue
                        kk = (x.label, tuple(memo[c] for c in x.kids)); memo.append(ids.setdefault(kk, len(ids)))
                        unk.append(x.label == "?" or any(unk[c] for c in x.kids))
                        if x.kids and kk in seen and not unk[i]: bad("not-shared" + last[p.label], "%s: the subproof at step %d repeats step %d: %s" % (p.label, i + 1, seen[kk] + 1, " ".join(q.proof))); break
                        seen[kk] = i
        for j in (k1, k1 + 4, k1 + 5):
            v = verdict(s.seg(j) or "")
            if v != v0: bad("verdict", "VERIFY PROOF * said %s before and %s afterwards (%s)\n%s" % (v0, v, cmds[j], (s.seg(j) or "")[-1500:]))
        if drive.READ_OK not in (s.seg(k1 + 3) or ""): bad("reread", "the written source is rejected\n" + (s.seg(k1 + 3) or ""))
        if res.sample is None: res.sample = {"commands": cmds[2:k1], "proofs": len(P)}

if __name__ == "__main__":
    c = harness.Check("C08", assumptions=["proof trees are decoded by lib/mmref.py"])
    ctx = {"bin": harness.build("plain")}
    c.run("formats", case, c.n(8000, 80000), ctx, "random databases (valid, invalid and incomplete proofs in every stored format, up to 650 labels and 121 hypotheses); random sequences of SAVE PROOF and SHOW PROOF with every format qualifier; WRITE SOURCE, ERASE, READ; decoded tree, format, sharing, verdicts and all other text compared")
    c.finish(min_evals=1000)
