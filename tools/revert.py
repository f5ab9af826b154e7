#!/usr/bin/env python3
"""Reverts each fix commit in a scratch copy and runs the property's check: every fix should be demonstrated.
usage: revert.py [commit...]"""
import os, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = [l.split() for l in open(V + "/tools/findings.map")]
want = sys.argv[1:]
def one(h, p):
    d = "/tmp/rev_" + h
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    try:
        r = subprocess.run("git -c user.name=x -c user.email=x@x revert -n %s" % h, shell=True, cwd=d, capture_output=True, text=True)
        if r.returncode:
            return "conflict"
        e = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off")
        r = subprocess.run("go build ./...", shell=True, cwd=d, env=e, capture_output=True, text=True)
        if r.returncode:
            return "does not build"
        r = subprocess.run([V + "/run.py", p, "quick"], env=dict(os.environ, VERIF_DEV_REPO=d), capture_output=True, text=True)
        return "caught" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc=%d" % r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(2) as ex:
    js = [(h, p, ex.submit(one, h, p)) for h, p in m if not want or h in want or p in want]
    for h, p, f in js:
        print(h, p, f.result(), flush=True)
