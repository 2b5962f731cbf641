import vp
TECH = "TLC: the hand-off algorithm at memory-access granularity (JobsImpl) in lock step with the user's specification (Jobs), plus enqueue/process/query histories explored from it; conformance: the real code run under a controlled scheduler (random and priority-based schedules with scheduling points at every shared access), every recorded event checked against Jobs by TLC"
PRIOS = [0, 1, 2, 3, 4, 9]
def op_lines(rng, n, threads, maxj, prios, gates=True):
    """a random application: enqueue, process, let run, ask, open gates"""
    ls = []; ids = 0; gated = []
    for _ in range(n):
        r = rng.random()
        if r < .45:
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                k = 1 if gates and rng.random() < .25 else 0
                ls.append("enq %d %d %d %d" % (rng.choice(prios), rng.randrange(3), k, rng.choice([0, 0, 1, 3, 10]))); ids += 1
                if k: gated.append(ids)
        elif r < .65: ls.append("process %d" % rng.choice([1, 1, 2, 3, 12]))
        elif r < .72: ls.append("run %d" % rng.randrange(1, 12))
        elif r < .8: ls.append("settle")
        elif r < .85: ls.append("query")
        elif r < .88: ls.append("done")
        elif r < .9: ls += ["settle", "done", "query"]
        elif r < .97 and gated: ls.append("release %d" % gated.pop(rng.randrange(len(gated))))
        else: ls.append(rng.choice(["empty", "full"]) + " %d" % rng.choice(prios[:-1] or prios))
    return ls
def sched(rng):
    m = rng.choice([0, 0, 0, 1, 2, 3, 5]); return "sched %d %d %d" % (rng.randrange(1, 10 ** 9), m, rng.choice([60, 200, 600, 2000]))
def ending(rng):
    return rng.choice([["drain 40000", "query", "done", "settle", "done", "free"], ["drain 40000", "free"], ["free"], ["free"], ["process 2", "free"], ["settle", "query", "free"]])
def histories(ctx):
    h = ctx.mc("MCJobs", vp.cfg({"MaxOps": ctx.n(5, 6)}, spec="Spec", inv=["JobsOK"], aconst="Emit", const="Bound", view="View"), workers=8)
    return [x[0] if isinstance(x[0], list) and x[0] and isinstance(x[0][0], list) else x for x in h]
def run(ctx):
    rng = ctx.rng
    ji = lambda n, pr: vp.cfg({"W": 2, "M": 2, "MaxJobs": n, "Prios": pr, "FreeFix": "TRUE"}, spec="Spec", inv=["NeverBad", "JobsOK", "HandOK"])
    ctx.mc("JobsImpl", ji(2, "{0,1}") if not ctx.thorough else ji(4, "{0,1}"), emit=False, workers=4, timeout=2400)
    hs = histories(ctx)
    if len(hs) > ctx.n(500, 6000): hs = rng.sample(hs, ctx.n(500, 6000))
    b = ctx.build_ctl("jobs.c")
    segs = []
    for i, h in enumerate(hs):
        for rep in range(1 if not ctx.thorough else 4):
            t = rng.choice([1, 1, 2, 3]); m = rng.choice([1, 2, 2, 3])
            segs.append(("hist%d.%d" % (i, rep), [sched(rng), "init %d %d" % (t, m)] + [" ".join(map(str, o)) for o in h] + ending(rng)))
    for i in range(ctx.n(350, 6000)):
        t = rng.choice([1, 1, 2, 2, 3, 4]); m = rng.choice([0, 1, 1, 2, 2, 3, 5, 20]); pr = rng.choice([PRIOS, PRIOS, [2, 9], [0, 1], [4], [0, 4], [1, 3]])
        ls = [sched(rng), "init %d %d" % (t, m)] + op_lines(rng, rng.choice([10, 25, 60]), t, m, pr) + ending(rng)
        if rng.random() < .2: ls += ["init %d %d" % (rng.choice([1, 2]), 2)] + op_lines(rng, 10, 2, 2, pr, False) + ending(rng)
        segs.append(("rnd%d" % i, ls))
    for i in range(ctx.n(6, 40)):  # the default limit; filling rings far past their end
        ls = [sched(rng), "init %d" % rng.choice([1, 2])]
        for k in range(3): ls += ["enq %d 0 0 0" % rng.choice([2, 9, 2, 0])] * rng.choice([99, 100, 101, 103]) + ["query"] + ["process %d" % rng.choice([5, 40]), "settle", "query"]
        segs.append(("big%d" % i, ls + ["drain 90000", "done", "free"]))
    ctx.conform_multi([(b, s) for s in (segs[k::4] for k in range(4))], "TraceJobs", timeout=200, tenv={"VP_FREE_MAY_HANG": "1"})
