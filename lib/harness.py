"""Common driver for checks: builds, case pool, verdicts, known findings, evidence."""
import os, sys, json, time, hashlib, subprocess, random, shutil, traceback, tempfile, re
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MMV_REPO", "/repo")
sys.path.insert(0, HERE)
import drive

KINDS = {
    "plain": ("gcc", ["-O1", "-g", "-w"]),
    "asan": ("clang", ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"]),
    "lsan": ("clang", ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address"]),
    "dyn": ("gcc", ["-O2", "-g", "-w", "-rdynamic"]),
    "zero": ("gcc", ["-O1", "-g", "-w", "-ftrivial-auto-var-init=zero"]),
    "pat": ("gcc", ["-O1", "-g", "-w", "-ftrivial-auto-var-init=pattern"]),
    "msan": ("clang", ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-sanitize-recover=all"]),
}

def src_files():
    d = os.path.join(REPO, "src")
    am = open(os.path.join(d, "Makefile.am")).read()
    fs = [f for f in os.listdir(d) if f.endswith(".c") and f in re.findall(r"[\w.-]+\.c", am)]
    if len(fs) < 5: fs = [f for f in os.listdir(d) if f.startswith("m") and f.endswith(".c")]
    return sorted(fs)

def src_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    d = os.path.join(REPO, "src")
    for f in sorted(os.listdir(d)):
        if f.endswith((".c", ".h", ".am")):
            h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:24]

def build(kind="plain", extra_src=(), defs=(), name="metamath"):
    """compile /repo/src into a cached directory keyed by the content of the sources"""
    cc, flags = KINDS[kind]
    key = src_hash(kind + " ".join(flags) + " ".join(defs) + "".join(open(x).read() for x in extra_src))
    root = os.path.join(VERIF, "build") if REPO == "/repo" else os.path.join(REPO, "vbuild")
    out = os.path.join(root, kind + "-" + key)
    exe = os.path.join(out, name)
    if os.path.exists(exe): return exe
    os.makedirs(root, exist_ok=True)
    # drop old builds of this kind
    for o in sorted(os.listdir(root)):
        if o.startswith(kind + "-"): shutil.rmtree(os.path.join(root, o), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
    srcs = [os.path.join(REPO, "src", f) for f in src_files()] + list(extra_src)
    procs = []
    objs = []
    log = ""
    todo = list(srcs); running = []
    failed = None
    while todo or running:
        while todo and len(running) < (os.cpu_count() or 4):
            s = todo.pop(); o = os.path.join(tmp, os.path.basename(s) + ".o"); objs.append(o)
            running.append((s, subprocess.Popen([cc] + flags + list(defs) + ["-I", os.path.join(REPO, "src"), "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        s, p = running.pop(0)
        lo = p.communicate()[0]
        if p.returncode != 0: failed = (s, lo.decode())
    if failed:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError("build failed: %s\n%s" % failed)
    r = subprocess.run([cc] + flags + objs + ["-o", os.path.join(tmp, name), "-lm"], capture_output=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True); raise RuntimeError("link failed: " + r.stderr.decode())
    for o in objs: os.unlink(o)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

def known_findings(prop):
    """lines 'KNOWN property=<id> key=<regex> :: text' of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

class Result:
    """what a case returns"""
    def __init__(self):
        self.evals = 0; self.keys = set(); self.viol = []; self.incon = []; self.sample = None; self.counts = {}
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def ev(self, key=None, n=1):
        self.evals += n
        if key is not None: self.keys.add(hashlib.md5(repr(key).encode("utf8", "replace")).hexdigest()[:12])
    def bad(self, key, desc, files=None, cmds=None):
        self.viol.append({"key": key, "desc": desc, "files": files or {}, "cmds": cmds or []})
    def unsure(self, why): self.incon.append(why)
    def check_session(self, s, files=None, what="session"):
        """crash / internal bug / timeout handling; returns True if the session is usable"""
        if s.timeout: self.unsure("timeout"); return False
        sa = s.san()
        if sa or s.rc != 0 or s.bugcheck:
            m = re.search(r"\?BUG CHECK:? *[^\n]*|\*\*\* (?:PROGRAM )?BUG[^\n]*", s.out)
            frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/", s.err)
            d = sa or (m.group(0) if m else "exit status %s" % s.rc)
            self.bad("crash:" + (re.sub(r"0x[0-9a-f]+|\d+", "N", sa)[:60] + "@" + ",".join(frames[:3]) if sa else re.sub(r"[^\w #*?]", "", d)[:60]),
                     "%s died or hit an internal error: %s\n%s\n%s" % (what, d, s.out[-1500:], s.err[:3000]), files, s.cmds)
            return False
        return True

_fn = None; _ctx = None
def _work(seed):
    try:
        rng = random.Random(seed)
        res = Result()
        _fn(res, rng, _ctx)
        return seed, res, None
    except Exception:
        return seed, None, traceback.format_exc()

class Check:
    def __init__(self, prop, level="exploration", assumptions=()):
        self.prop = prop; self.level = level; self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"): self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.evals = 0; self.keys = set(); self.samples = []; self.viol = []; self.incon = []; self.counts = {}
        self.rules = []; self.errors = []
    def n(self, quick, thorough): return thorough if self.tier == "thorough" else quick
    def run(self, name, fn, ncases, ctx, rule, jobs=None):
        """fn(res, rng, ctx) for ncases seeds derived from VERIF_SEED"""
        global _fn, _ctx
        only = os.environ.get("MMV_ONLY")
        if only and only != name: return
        _fn, _ctx = fn, ctx
        seeds = ["%s/%s/%d/%d" % (self.prop, name, self.seed, i) for i in range(ncases)]
        if os.environ.get("MMV_CASE"): seeds = [os.environ["MMV_CASE"]]
        self.rules.append("%s (%d cases): %s" % (name, ncases, rule))
        t = time.time(); nv = 0; inc = 0
        with mp.Pool(jobs or min(8, os.cpu_count() or 2)) as pool:
            for seed, res, err in pool.imap_unordered(_work, seeds, chunksize=1):
                if err: self.errors.append((seed, err)); continue
                self.evals += res.evals; self.keys |= res.keys
                for k, v in res.counts.items(): self.counts[k] = self.counts.get(k, 0) + v
                if res.sample is not None and len(self.samples) < 6: self.samples.append({"case": seed, "what": res.sample})
                for v in res.viol:
                    v["seed"] = seed; self.viol.append(v); nv += 1
                for i in res.incon: self.incon.append((seed, i)); inc += 1
                if sum(1 for v in self.viol if v["key"] == "hang") >= 3:
                    pool.terminate(); break
        print("%s: %d cases, %d evaluations so far, %d violations, %d inconclusive, %.1f s" % (name, ncases, self.evals, nv, inc, time.time() - t))
        sys.stdout.flush()
        self.last = (fn, ctx)
        # confirm violations by running the case again in this process
        conf = []
        for v in self.viol:
            if v.get("ok") or not v["seed"].split("/")[1] == name: continue
            if len([1 for c in self.viol if c.get("ok")]) >= 40: v["ok"] = True; continue
            s, res, err = _work(v["seed"])
            if res and any(x["key"] == v["key"] for x in res.viol): v["ok"] = True
            else: v["ok"] = False; self.incon.append((v["seed"], "violation did not reproduce: " + v["key"] + ": " + v["desc"][:300]))
    def finish(self, min_evals=1):
        viol = [v for v in self.viol if v.get("ok")]
        if self.errors:
            print("HARNESS ERROR in %d case(s); first (%s):\n%s" % (len(self.errors), self.errors[0][0], self.errors[0][1]))
        kf = known_findings(self.prop)
        new = []; seen = {}
        for v in viol:
            hit = None
            for key, text in kf:
                if re.fullmatch(key, v["key"]): hit = (key, text); break
            if hit: seen.setdefault(hit, []).append(v)
            else: new.append(v)
        for key, text in kf:
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, text, "" if (key, text) in seen else " (not exercised in this run)"))
        for s, why in self.incon[:8]: print("inconclusive: %s: %s" % (s, why))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.keys), "rule": " || ".join(self.rules),
               "samples": self.samples or ["none"], "inconclusive": len(self.incon), "counts": self.counts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s: %d evaluations, %d distinct, %s" % (self.prop, self.tier, self.evals, len(self.keys), self.counts))
        if new:
            rd = os.path.join(VERIF, "replay", self.prop); shutil.rmtree(rd, ignore_errors=True)
            by = {}
            for v in new: by.setdefault(v["key"], []).append(v)
            first = None
            for n, (k, vs) in enumerate(sorted(by.items())[:40]):
                v = min(vs, key=lambda x: sum(len(t) for t in x["files"].values()) if x["files"] else 0)
                d = os.path.join(rd, str(n)); os.makedirs(d)
                for fn, t in v["files"].items():
                    p = os.path.join(d, fn.replace("/", "_"))
                    with open(p, "wb") as f: f.write(t if isinstance(t, bytes) else t.encode("latin-1", "replace"))
                with open(os.path.join(d, "commands.txt"), "w") as f: f.write("\n".join(str(c) for c in v["cmds"]) + "\n")
                with open(os.path.join(d, "violation.txt"), "w") as f:
                    f.write("property %s\nkey %s\ncase %s\nre-run: MMV_ONLY=%s MMV_CASE='%s' VERIF_TIER=%s python3 %s\n\n%s\n" % (self.prop, k, v["seed"], v["seed"].split("/")[1], v["seed"], self.tier, sys.argv[0], v["desc"]))
                print("--- %s (%d times), case %s\n%s" % (k, len(vs), v["seed"], v["desc"][:1500]))
                first = first or d
            print("VIOLATION property=%s replay=%s" % (self.prop, first))
            sys.exit(1)
        if self.errors: sys.exit(2)
        if self.evals < min_evals:
            print("too few evaluations (%d < %d): nothing observed" % (self.evals, min_evals)); sys.exit(2)
        sys.exit(0)
