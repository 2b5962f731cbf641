#!/usr/bin/env python3
"""bug.py ID...: confirm planted changes.  Each is applied in a scratch copy of /repo; the copy is built, its stable tests run,
the demonstration must fail there and pass on the clean copy, then the property's check runs against the patched copy."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, timeout=1200, env=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout + r.stderr
def one(bid, check=True):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    W = "/tmp/bug_" + bid
    shutil.rmtree(W, ignore_errors=True)
    res = {}
    try:
        subprocess.run("git -C /repo worktree prune; git clone -q /repo %s" % W, shell=True, check=True)
        build = "cc -std=gnu11 -w -g -I code -I code/tests code/tests/tester.c -o tester -pthread -ldl -lm -latomic"
        rc, out = sh("sh %s/demo.sh" % d, W); res["demo_clean"] = rc
        rc, out = sh("git apply %s/patch.diff" % d, W)
        if rc: print(bid, "PATCH DOES NOT APPLY", out); return
        rc, out = sh(build, W); res["build"] = rc
        if rc: print(out[-2000:])
        rc, out = sh("./tester", W, 60); res["tests"] = rc
        if rc: print(out[-800:])
        try: rc, out = sh("sh %s/demo.sh" % d, W, 300)
        except subprocess.TimeoutExpired: rc = "timeout"
        res["demo_bug"] = rc
        if check:
            t = time.time()
            rc, out = sh("python3 tools/check.py " + meta["property"], V, 2000, dict(VP_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"))
            res["check"] = rc; res["secs"] = round(time.time() - t)
            res["lines"] = [l[:300] for l in out.splitlines() if l.startswith(("VIOL", "rejected", "CHECK"))][:2]
    finally:
        shutil.rmtree(W, ignore_errors=True)
    ok = res.get("demo_clean") == 0 and res.get("build") == 0 and res.get("tests") == 0 and res.get("demo_bug") not in (0,) 
    print(bid, meta["property"], "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 else "MISSED", json.dumps(res))
for b in sys.argv[1:]: one(b)
