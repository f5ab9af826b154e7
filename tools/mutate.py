#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not part of any check).
  mutate.py OUT.jsonl [-n PER_FILE] [-j WORKERS] [-s SEED] FILE...   (FILE relative to /repo)
  mutate.py --again OUT.jsonl      re-run the survivors listed in OUT.jsonl with all shards
"""
import json, os, random, shutil, subprocess, sys, threading, time, queue, signal
V = "/verif"; H = "/tmp/mut/verif/harness"  # a copy, so that editing can go on meanwhile
ORDER = {
 "geom/": "C07 C08 C20 C10 C21", "mmd/": "C01 C02 C23 C22", "mqo/": "C03 C04 C20 C23 C22",
 "fbx/": "C05 C06 C14 C23 C22", "converter/fbx2mqo": "C14 C16", "converter/unity2mqo": "C16",
 "converter/mmd2mqo": "C12", "converter/gltf2mqo": "C25", "converter/mqo2mmd": "C13",
 "converter/glbanim": "C21", "converter/mqo2gltf": "C09 C10 C26 C11", "converter/vrmconfig": "C19 C24",
 "unity/": "C15 C16", "gltfutil/": "C17 C18 C28 C22 C23", "vrm/": "C28 C19 C22 C23", "cmd/": "C24 C23 C22",
}
cfg = json.load(open(V + "/checks.json"))["checks"]
env0 = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
            HX_TIER="quick", HX_SEED="1", HX_FAILFAST="1", HX_CPULIMIT="25", GOMAXPROCS="2")

def order(f):
    for k in sorted(ORDER, key=len, reverse=True):
        if f.startswith(k):
            return ORDER[k].split()

def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, o = -99, "timeout"
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    if rc == -99: p.communicate()
    return rc, o

def try_mut(w, m, shards=1):
    """returns (verdict, detail)"""
    base = "/tmp/mut/w%d" % w
    repo = base + "/repo"
    rel = m["file"]
    src = open("/repo/" + rel, "rb").read()
    mut = src[:m["from"]] + m["new"].encode() + src[m["to"]:]
    open(repo + "/" + rel, "wb").write(mut)
    try:
        rc, o = sh(["go", "build", "./..."], repo, env0, 120)
        if rc: return "nobuild", ""
        cli = base + "/modelconv"
        built = {}
        for pid in m.get("checks") or order(rel):
            pkg = cfg[pid]["pkg"]
            b = base + "/" + pkg + ".test"
            if pkg not in built:
                t = open(H + "/go.mod").read().replace("=> /repo", "=> " + repo)
                open(base + "/go.mod", "w").write(t); shutil.copy(H + "/go.sum", base + "/go.sum")
                rc, o = sh(["go", "test", "-c", "-vet=off", "-modfile=" + base + "/go.mod", "-o", b, "./" + pkg], H, env0, 300)
                if rc: return "harness-nobuild", o[-300:]
                built[pkg] = 1
            if cfg[pid].get("cli"):
                sh(["go", "build", "-o", cli, "./cmd/modelconv"], repo, env0, 120)
            for s in range(shards):
                d = base + "/run"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/scratch")
                e = dict(env0, HX_SHARD=str(s), HX_OUT=d + "/result.json", HX_SCRATCH=d + "/scratch", TMPDIR=d + "/scratch", HX_CLI=cli, HX_REPO=repo)
                rc, o = sh([b, "-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-rapid.shrinktime", "1ms"], d, e, 200)
                if rc != 0:
                    return "caught", pid + ("" if rc != -99 else " timeout")
        return "SURVIVED", ""
    finally:
        open(repo + "/" + rel, "wb").write(src)

def main():
    a = sys.argv[1:]
    again = a[0] == "--again"
    if again: a = a[1:]
    out = a.pop(0); n, j, seed, files = 60, 7, 1, []
    while a:
        x = a.pop(0)
        if x == "-n": n = int(a.pop(0))
        elif x == "-j": j = int(a.pop(0))
        elif x == "-s": seed = int(a.pop(0))
        else: files.append(x)
    muts = []
    if again:
        for l in open(out):
            m = json.loads(l)
            if m["verdict"] == "SURVIVED" and (not files or m["file"] in files): muts.append(m)
        out += ".again"
    else:
        rnd = random.Random(seed)
        subprocess.check_call(["go", "build", "-o", "/tmp/mutgen", V + "/tools/mut/mutgen.go"], env=env0)
        for f in files:
            ms = [json.loads(l) for l in subprocess.check_output(["/tmp/mutgen", f], cwd="/repo", text=True).splitlines()]
            rnd.shuffle(ms); muts += ms[:n]
    if not os.environ.get("KEEP"):
        shutil.rmtree("/tmp/mut/verif", ignore_errors=True)
        shutil.copytree(V + "/harness", H)
    q = queue.Queue()
    for m in muts: q.put(m)
    lock = threading.Lock(); fo = open(out, "a" if not again else "w"); cnt = {}
    def work(w):
        base = "/tmp/mut/w%d" % w
        shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
        shutil.copytree("/repo", base + "/repo", symlinks=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            t = time.time()
            try: v, d = try_mut(w, m, 6 if again else 1)
            except Exception as ex: v, d = "error", repr(ex)
            m.update(verdict=v, detail=d, t=round(time.time() - t, 1))
            with lock:
                cnt[v] = cnt.get(v, 0) + 1
                fo.write(json.dumps(m) + "\n"); fo.flush()
                if v not in ("caught", "nobuild"): print(v, "%s:%d" % (m["file"], m["line"]), m["desc"], d, flush=True)
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(j)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(cnt)
main()
