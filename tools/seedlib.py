"""Makes the planted bugs: seeded/<id>/{patch.diff,demo.sh,demo_test.go.txt,meta.json}, and confirms each one in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscratch"
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" >"$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" RACE -run '^TestZZDemo$' PKG
'''
def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout.decode()
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1); e[k] = v
    e.pop("PWD", None)
    return e
ENV = env()
def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=timeout)
def tests(cwd):
    r = sh("go test -count=1 -json ./... ", cwd)
    ok = set(); 
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and "Test" in d: ok.add(d["Test"])
    return ok
BASE = None
def make(id, prop, edits, demo, needs, breaks, race=False, pkg="."):
    global BASE
    d = f"{V}/seeded/{id}"
    if not os.path.exists(SCR):
        shutil.copytree("/repo", SCR, symlinks=True)
    sh("git checkout -q -- . && git clean -fdq", SCR)
    if BASE is None: BASE = tests(SCR)
    def demo_run():
        s = DEMO.replace("RACE", "-race" if race else "").replace("PKG", pkg)
        s = s.replace("/zz_demo_test.go", ("/" + pkg[2:] if pkg.startswith("./") else "") + "/zz_demo_test.go")
        t = tempfile.mkdtemp()
        open(t + "/demo.sh", "w").write(s); open(t + "/demo_test.go.txt", "w").write(demo)
        r = sh(f"sed -i 's|^. /opt/vp/env.sh|. /opt/vp/env.sh; cd {SCR}|' {t}/demo.sh; bash {t}/demo.sh", SCR)
        shutil.rmtree(t)
        return r, s
    r, s = demo_run()
    if r.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-500:]); return False
    for f, old, new in edits:
        p = f"{SCR}/{f}"; c = open(p).read()
        if c.count(old) < 1: print(id, "NO MATCH", f, old); return False
        open(p, "w").write(c.replace(old, new, 1))
    b = sh("go build ./... && go vet . >/dev/null 2>&1; go build ./...", SCR)
    if b.returncode: print(id, "BUILD", b.stderr); return False
    got = tests(SCR)
    if BASE - got: print(id, "TESTS FAIL", sorted(BASE - got)[:5]); return False
    r, s = demo_run()
    if r.returncode == 0: print(id, "DEMO PASSES WITH BUG"); return False
    diff = sh("git diff", SCR).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(s); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go.txt", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id, "OK")
    return True
