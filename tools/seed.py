#!/usr/bin/env python3
# seed.py SPEC.py...: makes /verif/seeded/<id> from a spec and confirms it in a scratch copy of /repo:
# it builds, passes the stable tests, and the demo fails with the change and passes without it.
# SPEC.py defines: id, property, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source), env={}
import json, os, subprocess, sys, shutil, tempfile
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
%s
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
/usr/local/bin/go1.23 test -overlay "$t/o.json" -vet=off -count=1 -timeout 280s -run '^TestDemo' ./%s
'''
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, text=True, capture_output=True, **k)
def one(f, skip):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(ROOT, g["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh(f"git clone -q /repo {w}/r && git clone -q /repo {w}/c", "/")
        r = f"{w}/r"
        for fn, old, new in g["edits"]:
            s = open(f"{r}/{fn}").read()
            assert s.count(old) == 1, (g["id"], fn, old, s.count(old))
            open(f"{r}/{fn}", "w").write(s.replace(old, new))
        env = "\n".join(f"export {k}={v}" for k, v in g.get("env", {"USE_BIT_DECOMPOSITION_RANGE_CHECK": "true"}).items())
        open(f"{d}/demo_test.go", "w").write(g["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO % (env, g["pkg"], g["pkg"]))
        os.chmod(f"{d}/demo.sh", 0o755)
        diff = sh("git diff", r).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh 2>&1".replace("bash /opt/vp/build.sh", "sed 's#cd /repo#cd %s#' /opt/vp/build.sh | bash" % r), r)
        assert b.returncode == 0, b.stdout
        o = sh(f"{d}/demo.sh", f"{w}/c")
        p = sh(f"{d}/demo.sh", r)
        print(g["id"], "demo clean", o.returncode, "demo patched", p.returncode)
        if o.returncode != 0: print(o.stdout[-3000:], o.stderr[-2000:])
        if p.returncode == 0 or "build failed" in p.stdout or "--- FAIL: TestDemo" not in p.stdout: print(p.stdout[-3000:], p.stderr[-2000:])
        if not skip:
            sh(f"sed -e 's#cd /repo#cd {r}#' -e 's#LOG=/opt/vp/log#LOG={w}/log#' /opt/vp/test.sh > {w}/t.sh; bash {w}/t.sh {w}/out.json", r)
            res = json.load(open(f"{w}/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(res.get("passed", []))
            miss = [x for x in base if x not in passed]
            print(g["id"], "stable tests", len(base) - len(miss), "of", len(base), miss[:3])
    finally:
        shutil.rmtree(w)
skip = "-s" in sys.argv
for f in [a for a in sys.argv[1:] if a != "-s"]:
    one(f, skip)
