"""Interactive sessions with the real program over pipes, for Proof Assistant monitoring."""
import os, re, subprocess, time, select, signal
import drive

END = re.compile(r"(?:(MM> |MM-PA> |TOOLS> )|(\(Y, N\) <N>\? |to bypass\)\? |or quit \(Q\) <A>\? )|((?:Please answer I, S, or A:  )|A <return> to abort program:  ?))\Z")

class Died(Exception): pass

class PA:
    """one running program; cmd() sends a line and returns what was printed up to the next prompt"""
    def __init__(self, binary, cwd, timeout=60, pre=drive.PRE, env=None):
        e = dict(drive.BASE_ENV); e.update(env or {})
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(cwd, ".err"), "wb"), cwd=cwd, env=e, preexec_fn=drive._limits(0, timeout, 200))
        self.cwd = cwd; self.deadline = time.time() + timeout; self.limit = timeout
        self.log = []; self.cmds = []; self.timeout = False; self.bug = None; self.prompt = None
        self.buf = ""
        self._read()
        for c in pre: self.cmd(c)
    def _read(self):
        buf = []
        tail = ""
        fd = self.p.stdout.fileno()
        while True:
            left = self.deadline - time.time()
            if left <= 0:
                self.timeout = True; self.kill(); self.log.append("".join(buf)); raise Died("timeout")
            r, _, _ = select.select([fd], [], [], left)
            if not r: continue
            b = os.read(fd, 65536)
            if not b:
                self.p.wait(); self.log.append("".join(buf)); raise Died("exit")
            b = b.decode("latin-1"); buf.append(b); tail = (tail + b)[-60:]
            m = END.search(tail)
            if m:
                t = "".join(buf)
                self.log.append(t)
                if m.group(3):
                    self.bug = t[-1500:]; self.kill(); raise Died("bug check")
                self.prompt = m.group(1) or m.group(2)
                return t[:-len(self.prompt)]
    def send(self, line):
        self.log.append(line + "\n"); self.cmds.append(line)
        try: self.p.stdin.write((line + "\n").encode("latin-1")); self.p.stdin.flush()
        except OSError: raise Died("exit")
        return self._read()
    def cmd(self, line, answer=None):
        """answer(prompt, text) gives replies to questions; by default they are bypassed"""
        out = self.send(line); n = 0
        while not self.prompt.endswith("> "):
            n += 1
            a = answer(self.prompt, out) if answer and n < 40 else ""
            if n > 60: a = "q"
            if n > 80: raise Died("questions")
            out += self.prompt + "\n" + self.send(a)
        if "?BUG CHECK" in out: self.bug = out[-1500:]
        return out
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()
    def close(self):
        """end the session; returns the exit status"""
        try:
            self.cmd("exit /force", lambda p, t: "y")
            if self.p.poll() is None: self.cmd("exit /force", lambda p, t: "y")
        except Died: pass
        try: self.p.wait(timeout=5)
        except subprocess.TimeoutExpired: self.kill()
        self.p.stdin.close(); self.p.stdout.close()
        return self.p.returncode
    def session(self):
        """a drive.Session for harness.Result.check_session"""
        if self.p.poll() is None: self.close()
        err = open(os.path.join(self.cwd, ".err"), "rb").read().decode("latin-1")
        s = drive.Session("".join(self.log), self.p.returncode if not self.timeout else 0, self.timeout, err, self.cmds)
        if self.bug and not s.bugcheck: s.rc = s.rc or 1
        return s

# ------------------------------------------------------------------ observed state of a proof in progress

class Line:
    def __init__(self): self.num = None; self.kids = []; self.label = None; self.type = None; self.target = None; self.source = None; self.user = None
STEP = re.compile(r"^\s*(\d+) (?:([\d,]+) )?(\S+)\s+(\$[aefp?]) (.*)$")

def parse_state(text):
    """SHOW NEW_PROOF /ALL /LEMMON at a wide screen -> list of Line, or None"""
    out = []
    for l in text.split("\n"):
        if not l.strip(): continue
        m = STEP.match(l)
        if m:
            x = Line(); x.num = int(m.group(1)); x.kids = [int(k) for k in m.group(2).split(",")] if m.group(2) else []
            x.label = m.group(3); x.type = m.group(4)[1]; x.target = m.group(5).split(); out.append(x); continue
        m = re.match(r"^\s*(\(User\))?\s*= (.*)$", l)
        if m and out:
            if m.group(1): out[-1].user = m.group(2).split()
            else: out[-1].source = m.group(2).split()
            continue
        return None
    return out

def parse_normal(text):
    """the labels printed by SHOW NEW_PROOF /NORMAL"""
    m = re.search(r"put it in the source file:\n(.*?)\$\.\n-+The proof of", text, re.S)
    return m.group(1).split() if m else None

class Node:
    __slots__ = ("label", "kids", "pos", "start")
    def __init__(self, label, kids, pos, start): self.label = label; self.kids = kids; self.pos = pos; self.start = start

def tree(db, rpn):
    """RPN -> root Node with 1-based step positions, or None if it is not a single tree"""
    st = []
    for i, l in enumerate(rpn):
        if l == "?": st.append(Node("?", [], i + 1, i + 1)); continue
        s = db.by_label.get(l)
        if s is None: return None
        n = 0 if s.type in "ef" else len(s.mhyps)
        if n > len(st): return None
        k = st[len(st) - n:] if n else []
        if n: del st[len(st) - n:]
        st.append(Node(l, k, i + 1, k[0].start if k else i + 1))
    return st[0] if len(st) == 1 else None

def guide(db, node, dag, ref, out):
    """collect (step, reference label) for the unknown steps where the proof so far follows the reference"""
    l, ks = dag.nodes[ref]
    if node.label == "?":
        out.append((node.pos, l, ref)); return
    if node.label != l: return
    for a, b in zip(node.kids, ks): guide(db, a, dag, b, out)
