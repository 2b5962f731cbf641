import vp
from c29 import op_lines, sched, PRIOS
TECH = "TLC: dispatch rounds under an adversary that refills queues at will (Dispatch: bounded waiting), termination and progress of the hand-off algorithm as liveness (JobsImpl: freeing returns, accepted jobs start); conformance under the controlled scheduler: free at every moment, saturated rounds, drain to done, judged by TraceJobs and TraceDispatch"
def run(ctx):
    rng = ctx.rng
    ctx.mc("Dispatch", vp.cfg({"Rule": '"round"', "Victims": "{0, 1, 2, 3, 4}", "Patience": 110}, spec="Spec", inv=["Served"]), emit=False, workers=4)
    ctx.mc("JobsImpl", vp.cfg({"W": ctx.n(1, 2), "M": 2, "MaxJobs": ctx.n(3, 3), "Prios": "{0,1}", "FreeFix": "TRUE"}, spec="Spec", inv=["NeverBad", "JobsOK"], props=["FreeReturns", "Starts"]), emit=False, workers=4, timeout=1500)
    b = ctx.build_ctl("jobs.c")
    segs = []
    for i in range(ctx.n(900, 15000)):   # free in the middle of everything
        t = rng.choice([1, 1, 2, 2, 3, 4]); ls = [sched(rng), "init %d %d" % (t, rng.choice([1, 2, 3, 5]))]
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            ls.append("enq %d %d %d %d" % (rng.choice(PRIOS), rng.randrange(3), rng.random() < .3, rng.choice([0, 0, 1, 3, 10])))
            if rng.random() < .4: ls.append(rng.choice(["process 1", "process 2", "run 2", "settle"]))
        ls += rng.choice([[], ["process 1"], ["process 2"], ["process 4"], ["process 2", "run %d" % rng.randrange(1, 9)], ["process 12"]])
        ls.append(rng.choice(["free", "free", "free %d" % rng.choice([0, 1, 5, 20])]))
        segs.append(("free%d" % i, ls))
    for i in range(ctx.n(60, 1500)):     # every accepted job starts and done is reached
        t = rng.choice([1, 1, 2, 3]); pr = rng.choice([PRIOS, [0], [4], [0, 1], [3, 4], [1, 2, 3]])
        segs.append(("drain%d" % i, [sched(rng), "init %d %d" % (t, rng.choice([1, 3, 20]))] + op_lines(rng, rng.choice([5, 20]), t, 3, pr) + ["drain 60000", "done"] + rng.choice([["free"], op_lines(rng, 5, t, 3, pr) + ["drain 60000", "free"]])))
    ctx.conform_multi([(b, segs[k::4]) for k in range(4)], "TraceJobs", timeout=200)
    sat = []
    sets = [[p + 1 for p in range(5) if m >> p & 1] for m in range(1, 32)]
    for i, F in enumerate(sets if ctx.thorough else [F for F in sets if len(F) == 2 or len(F) == 5] + rng.sample([F for F in sets if len(F) in (1, 3, 4)], 6)):
        for w in ([1, 2, 3] if ctx.thorough else [rng.choice([1, 1, 1, 2, 3])]):
            sat.append(("full%d.%d" % (i, w), [sched(rng).replace("sched ", "sched ") + " 100000000", "init %d %d" % (w, rng.choice([1, 2, 3])), "tick %d %s" % (rng.randrange(1, 12), " ".join(map(str, rng.choice(sets)))), "tick %d %s" % (1050, " ".join(map(str, F))), "free"]))
    for i in range(ctx.n(4, 60)):
        F = rng.choice(sets); v = rng.choice(F); w = rng.choice([1, 1, 2])
        sat.append(("some%d" % i, [sched(rng) + " 100000000", "init %d %d" % (w, rng.choice([1, 3])), "tick %d %s" % (rng.randrange(1, 12), " ".join(map(str, rng.choice(sets)))), "tick 1050 %d %s" % (v, " ".join(str(-p) for p in F if p != v)), "free"]))
    ctx.conform_multi([(b, sat[k::4]) for k in range(4)], "TraceDispatch", timeout=200, cfg="SPECIFICATION TSpec\nCONSTANT Patience = 1000\nCHECK_DEADLOCK FALSE\n")
