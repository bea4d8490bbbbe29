#!/usr/bin/env python3
"""seed.py new SPEC.py  - creates seeded/<id>/ from a spec (id, prop, edits, needs, breaks, main) and verifies it
   seed.py run ID...     - runs the property's check (or --check Cxx) against a copy of /repo with the patch
Development tool only; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r
def tests(r):
    # the stable tests, against the copy
    sc = open("/opt/vp/test.sh").read().replace("/repo", r)
    env = open("/opt/vp/env.sh").read().replace("cd /repo", "cd " + r)
    t = tempfile.mkdtemp(prefix="seedt-")
    open(t + "/env.sh", "w").write(env)
    open(t + "/test.sh", "w").write(sc.replace("/opt/vp/env.sh", t + "/env.sh"))
    o = sh(["bash", t + "/test.sh", t + "/o.json"], cwd=r)
    try:
        j = json.load(open(t + "/o.json"))
        res = (len(j["passed"]) if hasattr(j["passed"], "__len__") else j["passed"]), j["failed"]
    except Exception as e:
        res = (0, str(e) + o.stdout[-1500:])
    shutil.rmtree(t)
    return res
def new(spec):
    g = {}
    exec(open(spec).read(), g)
    for s in g["SEEDS"]:
        d, r = copy()
        try:
            for f, a, b in s["edits"]:
                p = os.path.join(r, f); t = open(p).read()
                if t.count(a) != 1:
                    print(s["id"], "edit matches", t.count(a), "times:", a); break
                open(p, "w").write(t.replace(a, b))
            else:
                patch = sh(["git", "diff"], cwd=r).stdout
                b = sh(["bash", "-c", ". /opt/vp/env.sh; cd %s; go build ./... && go vet ./... 2>&1 | grep -v '^#' | head -3; gofmt -l server frame" % r])
                out = os.path.join(S, s["id"]); os.makedirs(out, exist_ok=True)
                open(out + "/patch.diff", "w").write(patch)
                shutil.copy(V + "/tools/seedlib/demo.sh", out); os.chmod(out + "/demo.sh", 0o755)
                shutil.copy(V + "/tools/seedlib/" + s.get("lib", "lib.go"), out + "/lib.go")
                open(out + "/main.go", "w").write(s["main"])
                if s.get("race"): open(out + "/race", "w").write("built with the race detector\n")
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                t = tests(r)
                good = sh(["bash", out + "/demo.sh"], cwd="/repo"); bad = sh(["bash", out + "/demo.sh"], cwd=r)
                print(s["id"], "build:", b.returncode, b.stdout.strip()[-300:], "tests:", t, "demo clean:", good.returncode, good.stdout[-300:] if good.returncode else "", "patched:", bad.returncode, bad.stdout[-200:].strip())
        finally:
            shutil.rmtree(d)
def run(ids):
    only = None
    if "--check" in ids:
        i = ids.index("--check"); only = ids[i+1]; ids = ids[:i] + ids[i+2:]
    for i in ids:
        d, r = copy()
        try:
            a = sh(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=r)
            if a.returncode: print(i, "patch does not apply", a.stdout); continue
            p = only or json.load(open(os.path.join(S, i, "meta.json")))["property"]
            o = sh(["./check", p], cwd=V, env=dict(os.environ, VERIF_REPO=r))
            l = [x[:160] for x in o.stdout.splitlines() if x.startswith(("[", "VIOL", "incon", "property", "build"))]
            print(i, p, "CAUGHT" if o.returncode == 1 else "MISSED rc=%d" % o.returncode, l[0] if l else o.stdout[-300:])
        finally:
            shutil.rmtree(d)
if sys.argv[1] == "new": new(sys.argv[2])
else: run(sys.argv[2:])
