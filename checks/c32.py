import vp
from c29 import sched
from c31 import hist
TECH = "TLC: every small program of two or three threads over a mutex and a semaphore, observed by the user's specification (ThreadsImpl/Threads); conformance: those and random programs (mutexes, semaphores, thread start/join/destroy/query, injected EINTR and creation failures) on the real code under a controlled scheduler and with real threads, traces judged by TraceThreads"
def life(rng, t, mode=None):
    """how main drives thread t: (before, start, middle questions, end)"""
    nw = rng.choice([0, 0, 1]); st = rng.choice([0, 0, 0, 1 << 19, 1000000])
    q = lambda: ["running:%d" % t] if rng.random() < .4 else []
    a = ["tinit:%d:%d" % (t, nw)] + q() + ["start:%d%s" % (t, ":%d" % st if st else "")] + q()
    z = q() + (["join:%d" % t] + q() + (["start:%d" % t] + q() + ["join:%d" % t] if rng.random() < .25 and mode != "once" else []) if rng.random() < .7 else []) + ["tdestroy:%d" % t] + q()
    return a, z
def app(rng, progs, init, tail=(), mode=None):
    ls = []; m = list(init); ends = []
    for t, p in enumerate(progs, 1):
        ls.append(("prog %d %s" % (t, " ".join(p))).strip()); a, z = life(rng, t, mode); m += a; ends.append(z)
        m += ["y"] * rng.choice([0, 0, 0, 2])
    m += list(tail)
    rng.shuffle(ends)
    for z in ends: m += z
    return ls + ["main " + " ".join(m)]
def ptry(rng, m): return "try:%d:1" % m
def mprog(rng, nm, n):
    """a well-formed program over nm mutexes, always locking upwards"""
    out = []; held = []
    for _ in range(n):
        r = rng.random()
        if r < .35:
            c = [m for m in range(nm) if not held or m > max(held)]
            if c: m = rng.choice(c); held.append(m); out.append("lock:%d" % m)
        elif r < .6 and held: out.append("unlock:%d" % held.pop(rng.randrange(len(held))))
        elif r < .9: out.append(ptry(rng, rng.choice([m for m in range(nm) if m not in held] or [0])) if not (held and rng.random() < .1) else "try:%d" % held[0])
        else: out.append("y")
    for m in reversed(held): out.append("unlock:%d" % m)
    return out
def sprog(rng, ns, n):
    out = []
    for _ in range(n):
        s = rng.randrange(ns); r = rng.random()
        out.append("wait:%d" % s if r < .35 else "tw:%d" % s if r < .55 else "release:%d" % s if r < .7 else "post:%d:%d" % (s, rng.choice([0, 1, 1, 2, 3, -1])) if r < .95 else "y")
    return out
def waits(progs, s): return sum(p.count("wait:%d" % s) for p in progs) * 2 + 2   # twice: threads may be started again
def run(ctx):
    rng = ctx.rng
    hm = hist(ctx, "mutex", 2, 3) + hist(ctx, "mutex", 3, 2) + (hist(ctx, "mutex", 3, 3) if ctx.thorough else [])
    hs = hist(ctx, "sem", 2, 2) + (hist(ctx, "sem", 2, 3) + hist(ctx, "sem", 3, 2) if ctx.thorough else [])
    if len(hs) > 3000: hs = rng.sample(hs, 3000)
    b = ctx.build_ctl("sync.c"); real = ctx.build("sync.c", name="sync_real", flags=["-DVP_REAL"], asan=False, opt="-O2")
    cs, rs = [], []
    for i, h in enumerate(hm):
        ps = [[{"lock": "lock:0", "unlock": "unlock:0", "try": "try:0:1"}[o] for o in p] for p in h]
        for rep in range(ctx.n(2, 30)): cs.append(("mhist%d.%d" % (i, rep), [sched(rng)] + app(rng, ps, ["minit:0"], mode="once") + ["main mdestroy:0"]))
    for i, h in enumerate(hs):
        ps = [[{"wait": "wait:0", "tw": "tw:0", "post1": "release:0", "post2": "post:0:2"}[o] for o in p] for p in h]
        for rep in range(ctx.n(1, 10)): cs.append(("shist%d.%d" % (i, rep), [sched(rng)] + (["main eintr:40"] if rng.random() < .3 else []) + app(rng, ps, ["sinit:0"], mode="once")))
    for i in range(ctx.n(200, 6000)):
        n = rng.randrange(1, 6); k = rng.random()
        if k < .4:
            nm = rng.randrange(1, 4); ps = [mprog(rng, nm, rng.choice([2, 5, 10])) for _ in range(n)]; ini = ["minit:%d" % m for m in range(nm)]; tail = ["lock:0", "unlock:0"] if rng.random() < .3 else []; fin = ["main " + " ".join("mdestroy:%d" % m for m in range(nm))]
        else:
            ns = rng.randrange(1, 3); ps = [sprog(rng, ns, rng.choice([2, 4, 8])) for _ in range(n)]; ini = ["sinit:%d" % s for s in range(ns)]
            if k > .8: ps = [p + (mprog(rng, 2, 4)) for p in ps]; ini += ["minit:0", "minit:1"]
            tail = ["post:%d:%d" % (s, waits(ps, s)) for s in range(ns)]; fin = ["main " + " ".join("tw:%d sdestroy:%d" % (s, s) for s in range(ns))]
            if rng.random() < .25: tail = []     # may get stuck; the specification knows when that is right
        ls = app(rng, ps, ini, tail) + fin
        pre = ["main eintr:%d" % rng.choice([20, 60])] if rng.random() < .3 else []
        cs.append(("rnd%d" % i, [sched(rng)] + pre + ls))
        if (tail or k < .4) and i % 2: rs.append(("rrnd%d" % i, ls))
    for i in range(ctx.n(40, 500)):  # thread creation fails
        st = rng.choice(["", "", ":65536"])
        cs.append(("fail%d" % i, [sched(rng), "prog 1 y", "prog 2 y y", "main tinit:1:%d tinit:2:0 start:2 failcreate:1 start:1%s running:1 %s tdestroy:1 running:2 join:2 tdestroy:2" % (rng.choice([0, 1]), st, rng.choice(["", "start:1 running:1 join:1", "start:1"]))]))
    for i in range(ctx.n(6, 60)):    # contention with real threads
        n = rng.randrange(2, 9); rs.append(("storm%d" % i, app(rng, [mprog(rng, 2, 60) for _ in range(n)], ["minit:0", "minit:1"], mode="once") + ["main mdestroy:0 mdestroy:1"]))
        ps = [sprog(rng, 2, 40) for _ in range(n)]
        rs.append(("flood%d" % i, app(rng, ps, ["sinit:0", "sinit:1"], ["post:%d:%d" % (s, waits(ps, s)) for s in (0, 1)], mode="once")))
    ctx.conform_multi([(b, cs[k::3]) for k in range(3)] + [(real, rs[k::2]) for k in range(2)], "TraceThreads", timeout=120)
