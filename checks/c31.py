import vp
from c29 import sched
TECH = "TLC: the barrier algorithm step by step, observed by the user's specification (ThreadsImpl/Threads: no early pass, never stuck); conformance: explored and random round/participant programs on the real barrier under a controlled scheduler and with real threads, traces judged by TraceThreads"
def hist(ctx, kind, n, k):
    hs = ctx.mc("ThreadsImpl", vp.cfg({"Kind": '"%s"' % kind, "N": n, "Len3": k, "Fault": '"none"'}, spec="Spec", inv=["NeverBad", "ThreadsOK", "StuckOK", "BarrierFlows"], aconst="Emit"), emit=True, workers=6, tag="%s%d%d" % (kind, n, k), timeout=1500)
    return [h[0] for h in hs]
def bprog(rng, parts, rounds, tgt=None, kinds=None, main_joins=False):
    """rounds: list of participant sets; each thread passes gate r before arriving in round r"""
    n = max(max(p) for p in rounds); ls = []
    for t in range(1, n + 1):
        ops = []
        for r, p in enumerate(rounds):
            if t in p:
                ops.append("gate:%d" % (r + 1)); ops += ["y"] * rng.choice([0, 0, 0, 1, 2]); ops.append(kinds(r, t)); ops += ["y"] * rng.choice([0, 0, 1])
        ls.append("prog %d %s" % (t, " ".join(ops)))
    m = ["binit"]
    for t in range(1, n + 1): m += ["tinit:%d:%d" % (t, rng.choice([0, 0, 1])), "start:%d" % t]
    for r, p in enumerate(rounds):
        k = tgt[r] if tgt else len(p)
        mine = main_joins and rng.random() < .5
        if mine: k += 1
        m += ["target:%d" % k, "open:%d" % (r + 1)] + ["y"] * rng.choice([0, 0, 3]) + (["rw" if rng.random() < .7 else "reach"] if mine else [])
    for t in range(1, n + 1): m.append("join:%d" % t)
    m += ["bdestroy"] + ["tdestroy:%d" % t for t in range(1, n + 1)]
    return ls + ["main " + " ".join(m)]
def run(ctx):
    rng = ctx.rng
    hs = hist(ctx, "barrier", 2, 3) + hist(ctx, "barrier", 3, ctx.n(2, 3))
    if ctx.thorough: hist(ctx, "barrier", 4, 2)
    b = ctx.build_ctl("sync.c"); real = ctx.build("sync.c", name="sync_real", flags=["-DVP_REAL"], asan=False, opt="-O2")
    cs, rs = [], []
    for i, h in enumerate(hs):
        for rep in range(ctx.n(3, 40)):
            n = len(h); rounds = [list(range(1, n + 1))] * len(h[0])
            ls = bprog(rng, n, rounds, kinds=lambda r, t: h[t - 1][r])
            cs.append(("hist%d.%d" % (i, rep), [sched(rng)] + ls))
            if rep == 0 and i % 4 == 0: rs.append(("rhist%d" % i, ls))
    for i in range(ctx.n(250, 6000)):
        n = rng.randrange(1, 7); R = rng.randrange(1, 6); p = rng.choice([.2, .5, 0])
        rounds = [sorted(rng.sample(range(1, n + 1), rng.randrange(1, n + 1))) for _ in range(R)]; rounds[0] = list(range(1, n + 1))
        ls = bprog(rng, n, rounds, kinds=lambda r, t: "reach" if rng.random() < p else "rw", main_joins=rng.random() < .3)
        cs.append(("rnd%d" % i, [sched(rng)] + (["main eintr:%d" % 30] if rng.random() < .3 else []) + ls))
        if i % 4 == 0: rs.append(("rrnd%d" % i, ls))
    for i in range(ctx.n(40, 500)):   # too few participants: nobody may pass
        n = rng.randrange(1, 5); tgt = n + rng.randrange(1, 3)
        R = rng.choice([1, 2]); rounds = [list(range(1, n + 1))] * R
        cs.append(("few%d" % i, [sched(rng)] + bprog(rng, n, rounds, tgt=[n] * (R - 1) + [tgt], kinds=lambda r, t: "rw" if rng.random() < .8 else "reach")))
    ctx.conform_multi([(b, cs[k::3]) for k in range(3)] + [(real, rs[k::2]) for k in range(2)], "TraceThreads", timeout=120)
