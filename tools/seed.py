#!/usr/bin/env python3
"""Plant bugs: build /verif/seeded/<id> from tools/seeds/<id>.py and verify it.

A definition sets PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Go source).
  seed.py make ID...      create/refresh and verify
  seed.py verify [ID...]  re-verify existing ones and run the property's check
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
d="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
exec go run "$d/main.go"
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])

def verify(i, check=True):
    out = f"{V}/seeded/{i}"
    d = f"/tmp/seedrepo-{i}"
    fresh(d)
    try:
        demo = f"/tmp/seeddemo-{i}"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(out, demo)
        r = sh(["bash", f"{demo}/demo.sh"], d, timeout=300)
        if r.returncode != 0:
            return "BAD demo fails on the clean tree: " + r.stdout[-1500:]
        r = sh(["git", "apply", f"{out}/patch.diff"], d)
        if r.returncode != 0:
            return "BAD patch does not apply: " + r.stdout
        r = sh("go build ./... && go vet ./... >/dev/null; go test -vet=off -count=1 ./...", d)
        if r.returncode != 0:
            return "BAD build/tests: " + r.stdout[-1500:]
        r = sh(["bash", f"{demo}/demo.sh"], d, timeout=300)
        if r.returncode == 0:
            return "BAD demo passes with the patch"
        if not check:
            return "ok"
        p = json.load(open(f"{out}/meta.json"))["property"]
        e = dict(ENV, VERIF_DEV_REPO=d)
        r = subprocess.run([f"{V}/run.py", p, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
        return f"{p}: " + {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN " + r.stdout[-800:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/seeddemo-{i}", ignore_errors=True)

def make(i):
    ns = {}
    exec(open(f"{V}/tools/seeds/{i}.py").read(), ns)
    out = f"{V}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    d = f"/tmp/seedmake-{i}"
    fresh(d)
    for f, a, b in ns["EDITS"]:
        s = open(f"{d}/{f}").read()
        assert s.count(a) == 1, (i, f, a, s.count(a))
        open(f"{d}/{f}", "w").write(s.replace(a, b))
    sh("gofmt -w " + " ".join({e[0] for e in ns["EDITS"]}), d)
    open(f"{out}/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout)
    shutil.rmtree(d)
    open(f"{out}/main.go", "w").write(ns["DEMO"].lstrip())
    open(f"{out}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(f"{V}/seeded"))
    for i in ids:
        if cmd == "make":
            make(i)
        print(i, verify(i), flush=True)
