"""Runs sessions of the real metamath binary in scratch directories."""
import os, re, subprocess, tempfile, shutil, signal, resource

PROMPT = re.compile(r"(?m)(?:^|(?<=MM> )|(?<=MM-PA> )|(?<=TOOLS> ))(MM> |MM-PA> |TOOLS> )")

class Session:
    def __init__(self, out, rc, timeout, err, cmds):
        self.out = out; self.rc = rc; self.timeout = timeout; self.err = err; self.cmds = cmds
        parts = PROMPT.split(out)
        self.banner = parts[0]
        self.segs = [(parts[i].strip(), parts[i + 1]) for i in range(1, len(parts) - 1, 2)]
    def seg(self, i): return self.segs[i][1] if i < len(self.segs) else None
    @property
    def crashed(self):
        return not self.timeout and (self.rc != 0)
    @property
    def bugcheck(self):
        m = re.search(r"\?BUG CHECK|\*\*\* (?:PROGRAM )?BUG", self.out)
        return m is not None
    def san(self):
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*)", self.err)
        return m.group(1) if m else None

def _limits(mem_mb, cpu, fsize):
    def f():
        os.setsid()
        if mem_mb: resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize << 20, fsize << 20))
    return f

BASE_ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent", "TZ": "UTC",
            "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=32",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "MSAN_OPTIONS": "exitcode=97"}

def run_raw(binary, args, stdin, cwd, timeout=60, env=None, mem_mb=0, fsize=200):
    e = dict(BASE_ENV)
    if env: e.update(env)
    try:
        p = subprocess.Popen([binary] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=cwd, env=e, preexec_fn=_limits(mem_mb, timeout, fsize))
    except OSError as ex:
        raise RuntimeError("cannot start %s: %s" % (binary, ex))
    to = False
    try:
        o, er = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, er = p.communicate()
    return o, er, p.returncode, to

PRE = ["set scroll continuous", "set width 9999"]

def run(binary, cmds, cwd, timeout=60, env=None, pre=PRE, end=("exit /force",), args=(), mem_mb=0, prompt_end=True, retry=True):
    """Run commands through standard input.  seg(i) is the output of cmds[i] (pre commands are dropped)."""
    pre = list(pre); cmds = list(cmds)
    data = ("\n".join(pre + cmds + list(end)) + "\n")
    data = data.encode("latin-1") if isinstance(data, str) else data
    o, er, rc, to = run_raw(binary, args, data, cwd, timeout, env, mem_mb)
    if to and retry:
        o, er, rc, to = run_raw(binary, args, data, cwd, timeout * 2, env, mem_mb)
    s = Session(o.decode("latin-1"), rc, to, er.decode("latin-1", "replace"), cmds)
    s.full = s.segs
    s.segs = s.segs[len(pre):]
    return s

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mmv-"); return self
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
    def path(self, n): return os.path.join(self.d, n)
    def write(self, n, text):
        p = os.path.join(self.d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
        return p
    def read(self, n):
        try:
            with open(os.path.join(self.d, n), "rb") as f: return f.read().decode("latin-1")
        except OSError: return None
    def ls(self):
        r = []
        for b, ds, fs in os.walk(self.d):
            for f in fs: r.append(os.path.relpath(os.path.join(b, f), self.d))
        return sorted(r)

def norm(s): return " ".join(s.split())

READ_OK = "No errors were found."
ERR_RE = re.compile(r'\?Error on line (\d+) of file "([^"]*)"')
STMT_ERR_RE = re.compile(r'\?Error (?:on line \d+ of file "[^"]*" )?(?:at|in|of|on)?[^?]*?label "([^"]*)"')
