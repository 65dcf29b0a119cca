#!/usr/bin/env python3
"""Developer tool: try the planted bugs in /verif/seeded (or the ids given) in a private copy of /repo.
For each: demo passes on the clean tree; the patch applies, builds and passes the stable tests; the demo fails; which checks catch it.
Usage: seedtest.py [-n] [id...]   (-n: do not run the checks)    Checks never call this."""
import os, sys, json, subprocess, shutil
V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def inner(wt, ids, run):
    sh("mount --bind %s /repo" % wt)
    bad = 0
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    def clean(): sh("cd /repo && git checkout -q -- . && bash /opt/vp/build.sh")
    clean()
    good = {}
    for i in ids:
        r = subprocess.run(["bash", "%s/%s/demo.sh" % (V, i)], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        good[i] = r.returncode == 0
        if not good[i]: print(i, "DEMO FAILS ON CLEAN TREE", r.stdout[-500:])
    for i in ids:
        m = json.load(open("%s/%s/meta.json" % (V, i)))
        r = sh("cd /repo && git apply %s/%s/patch.diff" % (V, i))
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout[-300:]); continue
        files = sh("cd /repo && git diff --name-only").stdout.split()
        r = sh("bash /opt/vp/build.sh")
        ok = r.returncode == 0
        sh("bash /opt/vp/test.sh /tmp/seed-o.json")
        n = len(json.load(open("/tmp/seed-o.json"))["passed"]) if os.path.exists("/tmp/seed-o.json") else 0
        d = subprocess.run(["bash", "%s/%s/demo.sh" % (V, i)], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        st = "builds=%s tests=%d demo-fails=%s" % (ok, n, d.returncode != 0)
        caught = []
        if run:
            for c in [m["property"]] + m.get("also", []):
                p = subprocess.run(["python3", "/verif/checks/%s.py" % c.lower(), "quick"], cwd="/verif", env=dict(os.environ, MMV_REPO=wt, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                caught.append("%s:%s" % (c, "caught" if p.returncode == 1 and "VIOLATION property=%s" % c in p.stdout else "MISSED rc=%d" % p.returncode))
        print(i, m["property"], "OK" if ok and n == 44 and d.returncode and good[i] else "BAD", st, files, " ".join(caught), flush=True)
        sh("cd /repo && git checkout -q -- .")
if sys.argv[1:2] == ["--inner"]: inner(sys.argv[2], sys.argv[4:], sys.argv[3] == "1")
else:
    a = sys.argv[1:]; run = "-n" not in a; ids = [x for x in a if x != "-n"] or sorted(os.listdir(V))
    wt = "/tmp/seedwt%d" % os.getpid(); sh("cp -a /repo %s" % wt)
    try: subprocess.run(["unshare", "-m", "python3", os.path.abspath(__file__), "--inner", wt, "1" if run else "0"] + ids)
    finally: shutil.rmtree(wt)
