#!/usr/bin/env python3
"""Driver of the property checks.

  run.py <ID> [quick|thorough]      decide one property
  run.py <ID> --replay FILE         re-run one saved counterexample
  run.py --setup                    build everything once (warms the build cache)

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not give an answer.
"""
import json, os, shutil, subprocess, sys, tempfile, time, re, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # overridden only when trying mutants in scratch copies
HARNESS = os.path.join(VERIF, "harness")

def registry():
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOSUMDB="off", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    return e

def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def build(pkg, scratch):
    # build from a copy of the module files so that nothing committed is rewritten
    out = os.path.join(scratch, "check.test")
    mod = os.path.join(scratch, "go.mod")
    with open(os.path.join(HARNESS, "go.mod")) as f:
        text = f.read()
    with open(mod, "w") as f:
        f.write(text.replace("=> /repo", "=> " + REPO))
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "go.sum"))
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-modfile=" + mod, "-o", out, "./" + pkg],
                       cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        die("build failed\n" + p.stdout[-6000:])
    return out

def build_cli(scratch):
    out = os.path.join(scratch, "modelconv")
    p = subprocess.run(["go", "build", "-o", out, "./cmd/modelconv"], cwd=REPO, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("building the command failed\n" + p.stdout[-6000:])
    return out

def main():
    if len(sys.argv) < 2:
        die("usage")
    scratch = tempfile.mkdtemp(prefix="vchk-")
    try:
        return run(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

# How often the quick counts of the legs are run: the fast checks take as long
# as the slow ones.
QUICK_SCALE = {"C01": 2, "C02": 3, "C03": 4, "C04": 5, "C05": 3, "C07": 3, "C08": 6, "C09": 6, "C10": 6,
               "C11": 8, "C12": 8, "C13": 8, "C14": 4, "C16": 2, "C17": 3, "C18": 2, "C19": 3, "C20": 8, "C21": 6,
               "C22": 3, "C23": 3, "C24": 4, "C25": 3, "C29": 2}

def run(scratch):
    reg = registry()
    if sys.argv[1] == "--setup":
        for pkg in sorted({c["pkg"] for c in reg["checks"].values()}):
            build(pkg, scratch)
        build_cli(scratch)
        print("setup ok")
        return 0
    pid = sys.argv[1]
    cfg = reg["checks"][pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = sys.argv[2:]
    if "--replay" in rest:
        replay = os.path.abspath(rest[rest.index("--replay") + 1])
    elif rest:
        tier = rest[0]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    binary = build(cfg["pkg"], scratch)
    env = goenv()
    if cfg.get("cli"):
        env["HX_CLI"] = build_cli(scratch)
    t_build = time.time() - t0
    env["HX_TIER"] = tier
    env["HX_SEED"] = str(seed)
    env["HX_REPO"] = REPO
    shards = cfg.get("shards", 6 if tier == "quick" else 8)
    if replay:
        shards = 1
        with open(replay) as f:
            head = f.read(4096)
        m = re.search(r"leg=(\S+)", head)
        if m:
            env["HX_LEG"] = m.group(1)
    if tier == "quick":
        env.setdefault("HX_SCALE", str(QUICK_SCALE.get(pid, 1)))
    limit = 780 if tier == "quick" else 3000
    env["HX_BUDGET"] = os.environ.get("VERIF_BUDGET", str(cfg.get("budget", 600)))
    procs = []
    for s in range(shards):
        d = os.path.join(scratch, "s%d" % s)
        os.makedirs(os.path.join(d, "scratch"))
        e = dict(env, HX_SHARD=str(s), HX_OUT=os.path.join(d, "result.json"),
                 HX_SCRATCH=os.path.join(d, "scratch"), TMPDIR=os.path.join(d, "scratch"))
        cmd = [binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "0",
               "-rapid.shrinktime", "20s" if tier == "quick" else "60s"]
        if replay:
            cmd += ["-rapid.failfile", replay]
        log = open(os.path.join(d, "log"), "wb")
        procs.append((s, d, subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                                             start_new_session=True)))
    deadline = time.time() + limit
    timed_out = False
    for s, d, p in procs:
        try:
            p.wait(max(0.1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    evals, hashes, labels, samples, known = 0, set(), {}, [], []
    legs = {}
    violations, broken = [], []
    for s, d, p in procs:
        rp = os.path.join(d, "result.json")
        res = None
        if os.path.exists(rp):
            with open(rp) as f:
                res = json.load(f)
        with open(os.path.join(d, "log"), errors="replace") as f:
            log = f.read()
        for l in (res or {}).get("legs") or []:
            g = legs.setdefault(l["name"], {"evaluations": 0, "distinct_nontrivial": 0})
            g["evaluations"] += l["evals"]
            g["distinct_nontrivial"] += l["distinct_nontrivial"]
            evals += l["evals"]
            for k, v in (l.get("labels") or {}).items():
                labels[l["name"] + ":" + k] = labels.get(l["name"] + ":" + k, 0) + v
            if l.get("failed"):
                dst = os.path.join(rdir, "%s-%s-seed%d-shard%d.fail" % (pid, l["name"], seed, s))
                body = ""
                if l.get("replay") and os.path.exists(l["replay"]):
                    with open(l["replay"], errors="replace") as f:
                        body = f.read()
                with open(dst, "w") as f:
                    f.write("# property=%s leg=%s seed=%d shard=%d tier=%s\n# replay: cd /verif && ./run.py %s --replay %s\n"
                            % (pid, l["name"], seed, s, tier, pid, dst))
                    f.write(body)
                violations.append((dst, l["name"], l.get("message", "")))
            if l.get("broken"):
                broken.append("%s: %s\n%s" % (l["name"], l["broken"], log[-3000:]))
        if res:
            hashes.update(res.get("hashes") or [])
            for x in res.get("samples") or []:
                if s == 0:
                    samples.append(x)
            known += res.get("known") or []
        if not (res and res.get("done")):
            rc = p.returncode
            # the code under test ended the process: log.Fatal (status 1 without a
            # test verdict) or a stack overflow (status 2, "stack overflow")
            died = None
            if not timed_out:
                if "stack overflow" in log or "goroutine stack exceeds" in log:
                    died = "stack overflow in the code under test"
                elif "fatal error: runtime: out of memory" in log or "runtime: out of memory" in log:
                    died = "memory exhausted in the code under test"
                elif "fatal error: concurrent map" in log:
                    died = "concurrent map access"
                elif rc == 1 and "--- FAIL" not in log and "panic:" not in log:
                    died = "the code under test ended the process"
            if died:
                dst = os.path.join(rdir, "%s-died-seed%d-shard%d.txt" % (pid, seed, s))
                with open(dst, "w") as f:
                    f.write("property=%s seed=%d shard=%d tier=%s: %s\nre-run: VERIF_SEED=%d ./run.py %s %s\n%s"
                            % (pid, seed, s, tier, died, seed, pid, tier, log[-200000:][:20000]))
                violations.append((dst, "process", died))
            else:
                broken.append("shard %d ended without a result (rc %s, timed out %s)\n%s" % (s, rc, timed_out, log[-3000:]))
    wall = time.time() - t0
    if replay:
        with open(os.path.join(scratch, "s0", "log"), errors="replace") as f:
            sys.stdout.write(f.read())
        if violations:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 2 if broken else 0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
                     "samples": samples[:12], "legs": legs, "classes": labels, "shards": shards,
                     "build_s": round(t_build, 2)},
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for line in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    if violations:
        for dst, leg, msg in violations:
            print("leg %s: %s" % (leg, msg[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    if broken:
        for b in broken:
            print("ERROR: " + b)
        return 2
    print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, tier, evals, len(hashes), wall))
    return 0

if __name__ == "__main__":
    sys.exit(main())
