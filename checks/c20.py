"""C20: the TOOLS text utilities compute what HELP documents.
A reference implementation of each command is applied to a model of the directory; after a session of random
TOOLS commands every file in the directory (backups included) and the reported figures are compared with it."""
import os, sys, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness, drive
from drive import norm

BL = b" \t"
def lines_of(data):
    if not data: return []
    l = data.split(b"\n")
    if l[-1] == b"": l.pop()
    return l
def join(ls): return b"".join(l + b"\n" for l in ls)

def find_all(s, m):
    """start positions of all (possibly overlapping) occurrences"""
    out = []; p = s.find(m)
    while p >= 0:
        out.append(p); p = s.find(m, p + 1)
    return out

def m_add(ls, pre, suf): return [pre + l + suf for l in ls]
def m_tag(ls, pre, suf, sm, sn, em, en):
    out = []; started = 0; ended = 0
    for l in ls:
        if started < sn and sm in l: started += 1
        if started == sn and ended < en:
            out.append(pre + l + suf)
            if em in l: ended += 1
        else: out.append(l)
    return out
def m_delete(ls, a, b):
    out = []
    for l in ls:
        p = l.find(a) if a else 0
        if p < 0: out.append(l); continue
        q = l.find(b, p) if b else len(l)
        out.append(l if q < 0 else l[:p] + l[q + len(b):])
    return out
def m_clean(ls, flags):
    f = set(flags.upper()); out = []
    for l in ls:
        if "B" in f: l = l.lstrip(BL)
        r = bytearray(); quoted = False
        for c in l:
            if "Q" in f:
                if c in b"\"'": quoted = not quoted
                if quoted: r.append(c); continue
            if "D" in f and c in BL: continue
            if "P" in f:
                c &= 127
                if c == 0: continue
            if "G" in f and c in b"\r\n\x0c\x1b\x08": continue
            if "C" in f and 97 <= c <= 122: c -= 32
            if "L" in f and 65 <= c <= 90: c += 32
            if "V" in f:
                if 234 <= c <= 237 or c in (218, 217, 191, 192): c = 43
                elif c in (241, 196): c = 45
                elif c in (248, 166, 179): c = 124
            r.append(c)
        l = bytes(r)
        if "E" in f: l = l.rstrip(BL)
        if "R" in f: l = re.sub(rb"[ \t]+", b" ", l)
        if "U" in f: l = l.expandtabs(8)
        out.append(l)
    return out
def m_subst(ls, old, new, occ, match):
    nl = b"\\n" in old
    if new == b"\\n": new = b"\n"
    if nl: occ = 1
    out = []; i = 0
    while i < len(ls):
        l = ls[i]; i += 1
        if match and match not in l: out.append(l); continue
        if nl and i < len(ls):
            j = l + b"\\n" + ls[i]
            if old not in j: out.append(l); continue
            l = j; i += 1
        if occ == "all": l = l.replace(old, new) if old else l + new
        else:
            ps = find_all(l, old) if old else ([len(l)] * occ)
            if len(ps) >= occ: l = l[:ps[occ - 1]] + new + l[ps[occ - 1] + len(old):]
        out.append(l)
    return out
def m_swap(ls, m):
    return [(l[l.find(m) + len(m):] + m + l[:l.find(m)]) if m in l else l for l in ls]
def m_insert(ls, s, col):
    c = max(col, 1)
    return [l.ljust(c - 1) [:c - 1] + s + l.ljust(c - 1)[c - 1:] for l in ls]
def m_break(ls, spec):
    out = []
    for l in ls:
        for c in set(spec): l = l.replace(bytes([c]), b" " + bytes([c]) + b" ") if c not in BL else l
        out += [t for t in re.split(rb"[ \t]+", l) if t]
    return out
def m_build(ls):
    out = []; cur = b""
    for l in ls:
        if not l: continue
        if not cur: cur = l
        elif len(cur) + len(l) > 72: out.append(cur); cur = l
        else: cur += b" " + l
    return out + ([cur] if cur else [])
def m_match(ls, m, yes): return [l for l in ls if bool((m in l) if m else l) == yes]
def m_right(ls):
    w = max([len(l) for l in ls] or [0]); return [l.rjust(w) for l in ls]
def m_reverse(ls): return ls[::-1]
def m_undup(ls): return sorted(set(ls))
def m_dup(ls): return sorted(set(l for l in ls if ls.count(l) > 1))
def m_unique(ls): return sorted(l for l in ls if ls.count(l) == 1)
def sort_key(l, k):
    p = l.find(k) if k else 0
    return l[max(p, 0):]
def m_parallel(a, b, s):
    n = max(len(a), len(b))
    return [x + s + y for x, y in zip(a + [b""] * (n - len(a)), b + [b""] * (n - len(b)))]
def m_number(a, b, st): return [str(x).encode() for x in range(a, b + 1, st)]

def versioned_write(fs, name, data):
    if name in fs:
        v = [fs.get("%s~%d" % (name, i)) for i in range(1, 10)]
        last = 0
        while last < 9 and v[last] is not None: last += 1
        if last == 9: last = 8
        for i in range(last, 0, -1): fs["%s~%d" % (name, i + 1)] = fs.pop("%s~%d" % (name, i))
        fs[name + "~1"] = fs[name]
    fs[name] = data

WORDS = [b"a", b"ab", b"aba", b"x", b"|-", b"$p", b"$.", b"->", b"(", b")", b"12", b"-3.5", b"7", b"foo", b"Bar", b"ph", b"=", b";", b",", b"[", b"{", b"aa", b"aaa", b"#", b"\\"]
def word(rng):
    if rng.random() < .75: return rng.choice(WORDS)
    return bytes(rng.choice(b"abcXYZ01.;,-+()[]|\\/$%&@~`^_<>?!*") for _ in range(rng.randint(1, 6)))
def line(rng, style):
    r = rng.random()
    if r < .12: return b""
    if r < .17: return bytes(rng.choice(BL) for _ in range(rng.randint(1, 5)))
    n = rng.choice([1, 1, 2, 3, 5, 9])
    if rng.random() < .02: n = rng.randint(20, 60)
    parts = []
    for _ in range(n):
        parts.append(word(rng) if rng.random() > .1 or "8" not in style else bytes(rng.randint(128, 255) for _ in range(2)))
        if "c" in style and rng.random() < .05: parts.append(bytes([rng.choice([12, 27, 8, 13])]))
        if "q" in style and rng.random() < .2: parts.append(rng.choice([b"'", b'"']))
        parts.append(rng.choice([b" ", b" ", b"  ", b"\t", b" \t", b"", b"        "]))
    if rng.random() < .5: parts.pop()
    if rng.random() < .2: parts.insert(0, rng.choice([b" ", b"\t", b"   "]))
    l = b"".join(parts)
    if rng.random() < .004: l = (l or b"ab ") * 3000; l = l[:rng.choice([9999, 10000, 10001, 20000, 20001, 15000])]
    return l
def gen_file(rng):
    style = rng.choice(["", "q", "8", "qc", "q8c"])
    if rng.random() < .15:
        ls = [rng.choice([b"%d", b"%d.5", b"-%d"]) % rng.randint(0, 5000) for _ in range(rng.randint(1, 12))]
    else:
        ls = [line(rng, style) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 9, 14, 30]))]
        if ls and rng.random() < .5:
            for _ in range(rng.randint(1, 4)): ls.insert(rng.randrange(len(ls) + 1), rng.choice(ls))
    d = join(ls)
    if d and rng.random() < .2 and ls[-1]: d = d[:-1]
    return d

def sub(rng, ls, empty=True):
    """an argument string, usually occurring in the file"""
    if empty and rng.random() < .15: return b""
    if ls and rng.random() < .75:
        l = rng.choice(ls)
        if len(l) > 300: l = l[:300]
        if l:
            a = rng.randrange(len(l)); s = l[a:a + rng.choice([1, 1, 2, 3, 5])]
            s = bytes(c for c in s if c >= 32)
            if s: return s
    return word(rng)
def q(s):
    if b'"' not in s: return b'"' + s + b'"'
    return b"'" + s + b"'"
def ok_arg(s): return not (b'"' in s and b"'" in s)

NAMES = ["a.txt", "b.tmp", "c", "long name.mm", "d~x", "e.e.e"]

def case(res, rng, ctx):
    fs = {}; names = rng.sample(NAMES, rng.randint(1, 3))
    for n in names: fs[n] = gen_file(rng)
    if rng.random() < .3:
        n = rng.choice(names)
        for i in rng.sample(range(1, 10), rng.randint(1, 9)) if rng.random() < .5 else range(1, rng.randint(2, 10)): fs["%s~%d" % (n, i)] = gen_file(rng)
    init = dict(fs); cmds = [b"tools"]; ops = []   # op: (kind, index of command, data)
    def target():
        n = rng.choice(([x for x in fs if "~" not in x] or list(fs)) if rng.random() < .9 else list(fs))
        return n
    def fail(*a): return None
    def do(cmd, name, new):
        out = name[:-2] if len(name) >= 2 and name[-2] == "~" else name
        old = lines_of(fs[name]); versioned_write(fs, out, join(new)); return old
    def Q(n): return q(n.encode())
    ops_n = 0
    while ops_n < rng.choice([1, 3, 6, 8]):
        ops_n += 1
        n = target(); ls = lines_of(fs[n]); k = rng.choice(["add", "tag", "delete", "clean", "substitute", "s", "swap", "insert", "break", "build", "match", "right", "sort", "undup", "dup", "unique", "reverse", "parallel", "number", "count", "type", "copy"])
        ci = len(cmds)
        if sum(map(len, ls)) > 400000: k = "type"
        if k == "add":
            a, b = (sub(rng, ls) for _ in "12")
            if not (ok_arg(a) and ok_arg(b)): continue
            cmds.append(b"add " + Q(n) + b" " + q(a) + b" " + q(b)); new = m_add(ls, a, b)
        elif k == "tag":
            a, b, s, e = (sub(rng, ls) for _ in "1234"); i, j = (rng.choice([1, 1, 2, 3, 5]) for _ in "12")
            if not all(map(ok_arg, (a, b, s, e))): continue
            cmds.append(b" ".join([b"tag", Q(n), q(a), q(b), q(s), b"%d" % i, q(e), b"%d" % j])); new = m_tag(ls, a, b, s, i, e, j)
        elif k == "delete":
            a, b = (sub(rng, ls) for _ in "12")
            if not (ok_arg(a) and ok_arg(b)): continue
            cmds.append(b"delete " + Q(n) + b" " + q(a) + b" " + q(b)); new = m_delete(ls, a, b)
        elif k == "clean":
            f = "".join(rng.sample("DBERQPGCLVU", rng.choice([1, 1, 2, 3, 4]))); tab = False
            if rng.random() < .15: f = f.replace("U", "") + "T"; tab = True
            if "U" in f or "T" in f:
                if any(13 in l for l in ls): f += "G"
                if "Q" in f: f = f.replace("Q", "")
                if "P" in f and any(c & 127 < 32 for l in ls for c in l): f = f.replace("P", "")
            if "P" in f and any(c in (0x8a,) for l in ls for c in l): f = f.replace("P", "E")
            if rng.random() < .3: f = f.lower()
            cmds.append(b"clean " + Q(n) + b" " + q(rng.choice([",", ""]).join(f).encode())); new = m_clean(ls, f)
            if tab: ops.append(("tab", ci, n)); new = ("tab", [l.expandtabs(8) for l in new], new)
        elif k in ("substitute", "s"):
            a = sub(rng, ls, False); b = sub(rng, ls); m = sub(rng, ls) if rng.random() < .4 else b""
            if rng.random() < .15: a = b"\\n"
            elif rng.random() < .08 and len(ls) > 1:
                i = rng.randrange(len(ls) - 1); a = ls[i][-rng.randint(0, 2):][:2] + b"\\n" + ls[i + 1][:rng.randint(0, 2)]; a = bytes(c for c in a if c >= 32)
            if rng.random() < .15: b = b"\\n"
            if b"\\n" in a and any(b"\\n" in l for l in ls): continue
            if b"\\n" in b and b != b"\\n": continue
            if len(a) > 40 or not all(map(ok_arg, (a, b, m))): continue
            o = rng.choice([1, 1, 2, 3, "all", "all"]); os_ = rng.choice([b"all", b"A", b"a", b"ALL", b"each", b"EACH"]) if o == "all" else b"%d" % o
            cmds.append(b" ".join([k.encode(), Q(n), q(a), q(b), os_, q(m)])); new = m_subst(ls, a, b, o, m)
            if b"\n" in b"".join(new): new = lines_of(join(new))
            new = join(new).split(b"\n")[:-1]
        elif k == "swap":
            a = sub(rng, ls, False)
            if not ok_arg(a): continue
            cmds.append(b"swap " + Q(n) + b" " + q(a)); new = m_swap(ls, a)
        elif k == "insert":
            a = sub(rng, ls); c = rng.choice([1, 1, 2, 3, 5, 10, 40, 73])
            if not ok_arg(a): continue
            cmds.append(b"insert " + Q(n) + b" " + q(a) + b" %d" % c); new = m_insert(ls, a or b"!", c)
        elif k == "break":
            sp = rng.choice([b" ", b"()[],=:;{}", bytes(rng.sample(list(b"()[],=:;{}ab|$-."), rng.randint(1, 4))), b"("])
            cmds.append(b"break " + Q(n) + b" " + q(sp)); new = m_break(ls, sp)
        elif k == "build": cmds.append(b"build " + Q(n)); new = m_build(ls)
        elif k == "match":
            a = sub(rng, ls); y = rng.choice([True, False])
            if not ok_arg(a): continue
            cmds.append(b"match " + Q(n) + b" " + q(a) + b" " + rng.choice([b"y", b"Y", b"yes"] if y else [b"n", b"N", b"no"])); new = m_match(ls, a, y)
        elif k == "right": cmds.append(b"right " + Q(n)); new = m_right(ls)
        elif k == "sort":
            a = sub(rng, ls)
            if not ok_arg(a): continue
            cmds.append(b"sort " + Q(n) + b" " + q(a)); new = sorted(ls, key=lambda l: sort_key(l, a))
            if a and len(set(sort_key(l, a) for l in set(ls))) != len(set(ls)): new = ("sort", a, new)
        elif k == "undup": cmds.append(b"unduplicate " + Q(n)); new = m_undup(ls)
        elif k == "dup": cmds.append(b"duplicate " + Q(n)); new = m_dup(ls)
        elif k == "unique": cmds.append(b"unique " + Q(n)); new = m_unique(ls)
        elif k == "reverse": cmds.append(b"reverse " + Q(n)); new = m_reverse(ls)
        elif k == "parallel":
            n2 = target(); o = rng.choice(NAMES + [n, n2]); a = sub(rng, ls)
            if not ok_arg(a) or o[-2:-1] == "~" and False: continue
            l2 = lines_of(fs[n2])
            cmds.append(b" ".join([b"parallel", Q(n), Q(n2), Q(o), q(a)])); new = m_parallel(ls, l2, a)
            versioned_write(fs, o, join(new)); ops.append(("parallel", ci, (len(ls), len(l2)))); res.ev(("parallel", cmds[-1], join(ls), join(l2))); res.count("parallel"); continue
        elif k == "number":
            o = rng.choice(NAMES); a = rng.randint(0, 30); b = a + rng.randint(-2, 60); st = rng.choice([1, 1, 2, 3, 7, 100])
            cmds.append(b"number " + Q(o) + b" %d %d %d" % (a, b, st)); versioned_write(fs, o, join(m_number(a, b, st))); res.ev(("number", cmds[-1])); res.count("number"); continue
        elif k == "count":
            a = sub(rng, ls, False)
            if not ok_arg(a): continue
            cmds.append(b"count " + Q(n) + b" " + q(a)); ops.append(("count", ci, (ls, a))); res.count("count"); res.ev(("count", cmds[-1], join(ls))); continue
        elif k == "type":
            num = rng.choice([None, 1, 3, 10, 100, "all"])
            if any(c < 32 and c != 9 for l in ls for c in l): continue
            cmds.append(rng.choice([b"type ", b"t "]) + Q(n) + (b" \"\"" if False else b"" if num is None else b" all" if num == "all" else b" %d" % num))
            if num is None: cmds[-1] += b" 10"; num = 10
            ops.append(("type", ci, ls if num == "all" else ls[:num])); res.count("type"); res.ev(("type", cmds[-1], join(ls))); continue
        elif k == "copy":
            src = [x for x in [n] + [target() for _ in range(rng.choice([0, 1, 1, 2, 3]))] if "," not in x and " " not in x]
            if not src: continue
            o = rng.choice(NAMES + src); d = [lines_of(fs[x]) for x in src]
            cmds.append(rng.choice([b"copy ", b"c "]) + q(",".join(src).encode()) + b" " + Q(o)); new = sum(d, [])
            versioned_write(fs, o, join(new)); res.ev(("copy", cmds[-1], join(new))); res.count("copy"); ops.append(("lines", ci, len(new))); continue
        out = n[:-2] if len(n) >= 2 and n[-2] == "~" else n
        res.ev((k, cmds[-1], fs[n])); res.count(k)
        if isinstance(new, tuple):
            # the exact text is not determined: end the sequence here and judge the last output by its own rule
            versioned_write(fs, out, new); res.count("free-form"); break
        res.count("changed", new != ls)
        if k in ("add", "tag", "clean", "swap", "insert", "right"): ops.append(("edit", ci, (ls, new)))
        versioned_write(fs, out, join(new))
    if rng.random() < .5: cmds.append(b"exit")
    with drive.Scratch() as sc:
        for n, d in init.items(): sc.write(n, d)
        data = b"\n".join(cmds).split(b"\n")
        s = drive.run(ctx["bin"], [c.decode("latin-1") for c in cmds], sc.d, timeout=10, env=ctx.get("env"))
        files = {k: v for k, v in init.items()}
        got = {}
        for n in sc.ls():
            with open(sc.path(n), "rb") as f: got[n] = f.read()
    if s.timeout: res.bad("hang", "the session does not end: %r" % cmds, files, s.cmds); return
    if not res.check_session(s, files): return
    def viol(k, d): res.bad(k, "%s\ncommands: %s" % (d, cmds), files, s.cmds)
    for n in sorted(set(fs) | set(got)):
        w = fs.get(n); g = got.get(n)
        if isinstance(w, tuple):
            if g is None: viol("tools-file", "%s is missing" % n); continue
            gl = lines_of(g)
            if w[0] == "tab":
                if [l.expandtabs(8) for l in gl] != w[1] or any(len(a) > len(b.expandtabs(8)) for a, b in zip(gl, w[2])): viol("tools-clean-tab", "%s: %r instead of the tabbed form of %r" % (n, g[:1500], join(w[2])[:1500]))
                elif any("  " in "" or b"        " in l[:len(l) // 8 * 8 - 8] and tabbable(l) for l in gl): viol("tools-clean-tab", "%s: spaces remain that a tab could replace: %r" % (n, g[:1500]))
            else:
                ks = [sort_key(l, w[1]) for l in gl]
                if sorted(gl) != sorted(w[2]): viol("tools-sort", "%s: the lines after SORT are not those before: %r instead of %r" % (n, g[:1500], join(w[2])[:1500]))
                elif ks != sorted(ks): viol("tools-sort", "%s is not sorted by its key %r: %r" % (n, w[1], g[:1500]))
        elif w != g:
            c = [x for x in cmds[1:-1] + cmds[-1:] if x.split()[0] not in (b"exit",)]
            viol("tools-file:" + (c[-1].split()[0].decode() if c and "~" not in n else "backup"), "file %s holds\n%r\ninstead of\n%r" % (n, g if g is None else g[:2500], w if w is None else w[:2500]))
    for kind, ci, d in ops:
        seg = s.seg(ci)
        if seg is None: viol("tools-output", "no output for command %d" % ci); continue
        if kind == "edit":
            ls, new = d; ch = [i for i in range(len(ls)) if ls[i] != new[i]]
            m = re.search(r"has (\d+) lines?; (none|\d+) w(?:as|ere) changed\.  First (?:changed line is (\d+)|line):", seg)
            if not ls:
                if "has no lines" not in seg: viol("tools-message", "empty file not reported: %s" % seg)
            elif not m or int(m.group(1)) != len(ls) or m.group(2) != (str(len(ch)) if ch else "none") or (ch and int(m.group(3)) != ch[0] + 1):
                viol("tools-message", "%d lines, %d changed, first %s, but: %s" % (len(ls), len(ch), ch[:1], seg[:600]))
        elif kind == "parallel":
            a, b = d
            m = re.search(r"The input files each had (\d+) lines", seg)
            if (a == b) != bool(m) or m and int(m.group(1)) != a: viol("tools-message", "PARALLEL of %d and %d lines: %s" % (a, b, seg[:400]))
            if a != b and not re.search(r"had %d lines while file \"[^\"]*\" had %d lines" % (a, b), seg): viol("tools-message", "PARALLEL of %d and %d lines: %s" % (a, b, seg[:400]))
        elif kind == "lines":
            if not re.search(r'The output file "[^"]*" has %d lines\.' % d, seg): viol("tools-message", "COPY of %d lines: %s" % (d, seg[:400]))
        elif kind == "type":
            want = join(d).decode("latin-1")
            if seg != want and not all(len(l) < 9000 for l in d) is False: viol("tools-type", "TYPE shows %r instead of %r" % (seg[:1500], want[:1500]))
        elif kind == "count":
            ls, a = d; nl = len([l for l in ls if a in l]); no = sum(len(find_all(l, a)) for l in ls)
            m = re.search(r'(?s)The file has (\d+) lines\.  The string ".*?" occurs (\d+) times on (\d+) lines\.', seg)
            if not m or int(m.group(1)) != len(ls) or int(m.group(3)) != nl or a and int(m.group(2)) != no: viol("tools-count", "%d lines, %d occurrences on %d lines, but: %s" % (len(ls), no, nl, seg[:600]))
            if ls:
                w = max(map(len, ls)); first = [len(l) for l in ls].index(w) + 1; cnt = len([l for l in ls if len(l) == w])
                m = re.search(r"The first longest line \(out of (\d+)\) is line (\d+) and has (\d+) characters:", seg)
                if not m or list(map(int, m.groups())) != [cnt, first, w]: viol("tools-count", "%d longest lines of %d characters, the first is %d, but: %s" % (cnt, w, first, seg[:600]))
                f = [i + 1 for i, l in enumerate(ls) if a in l]
                m = re.search(r"The first occurrence is on line (\d+):", seg)
                if bool(m) != bool(f) or m and int(m.group(1)) != f[0]: viol("tools-count", "first occurrence on line %s, but: %s" % (f[:1], seg[:600]))
                if all(re.fullmatch(rb"-?\d+", l) for l in ls):
                    m = re.search(r"the sum of lines is (-?\d+)$", norm(seg))
                    if not m or int(m.group(1)) != sum(map(int, ls)): viol("tools-count", "the sum is %d, but: %s" % (sum(map(int, ls)), seg[-300:]))
    if res.sample is None: res.sample = {"commands": [repr(c) for c in cmds]}

def tabbable(l):
    """an 8-column stop preceded by at least two spaces, with text after it"""
    col = 0; run = 0
    for i, c in enumerate(l):
        if col and col % 8 == 0 and run >= 2 and c != 9: return True
        if c == 9: col = (col // 8 + 1) * 8; run = 0; continue
        run = run + 1 if c == 32 else 0
        col += 1
    return False

if __name__ == "__main__":
    c = harness.Check("C20", assumptions=["arguments without control characters; files without NUL; UPDATE (deprecated) is not judged"])
    ctx = {"bin": harness.build("plain")}
    c.run("tools", case, c.n(12000, 150000), ctx, "random files (tabs, quotes, 8-bit, control characters, empty lines, lines beyond the read chunk, missing final newline, existing backups with gaps) and random sequences of the 21 TOOLS commands; every file and reported figure compared with reference implementations written from HELP")
    ctx = {"bin": harness.build("asan")}
    c.run("tools-asan", case, c.n(900, 10000), ctx, "the same under AddressSanitizer and UBSan")
    c.finish(min_evals=1000)
