import os, subprocess, sys, json, shutil
V="/verif/seeded"
HEAD = '''#!/bin/bash
# exit 0 when the property holds for this input
MM=/repo/_build/main/src/metamath
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cd "$D" || exit 2
'''
def seed(id, prop, file, edits, demo, needs, breaks, also=()):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    wt = "/tmp/seedmk"; subprocess.run(["rm", "-rf", wt]); os.makedirs(wt)
    subprocess.run("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (wt, wt), shell=True, check=True)
    if isinstance(file, str): edits = [(file,) + e for e in edits]
    for e in edits:
        f, o, n = e[:3]; k = e[3] if len(e) > 3 else 0
        p = "%s/src/%s" % (wt, f); s = open(p).read()
        if s.count(o) <= k: print(id, "NOT FOUND", f, o[:60], s.count(o)); return
        i = -1
        for _ in range(k + 1): i = s.index(o, i + 1)
        if len(e) <= 3 and s.count(o) > 1: print(id, "warning: %d occurrences" % s.count(o))
        s = s[:i] + n + s[i + len(o):]; open(p, "w").write(s)
    d = os.path.join(V, id); os.makedirs(d, exist_ok=True)
    diff = subprocess.run("cd %s && git diff" % wt, shell=True, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(HEAD + demo.strip("\n") + "\n"); os.chmod(d + "/demo.sh", 0o755)
    m = {"property": prop, "needs": needs, "what_it_breaks": breaks}
    if also: m["also"] = list(also)
    json.dump(m, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(wt); print(id, "written")
exec(open("/verif/tools/seeds_list.py").read())
