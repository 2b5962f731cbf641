import vp
def gen(rng, n):
    segs = []
    for i in range(n):
        s = ["init %d" % rng.randrange(16)]; m = rng.choice([4, 8, 16])
        for _ in range(rng.randrange(10, 60)):
            r = rng.random()
            if r < .04: s.append("init %d" % rng.randrange(m))
            elif r < .65: s.append("add %d %d" % (rng.randrange(m), rng.randrange(m)))
            else: s.append("remove %d" % rng.randrange(m))
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    h = ctx.mc("MCList", vp.cfg(dict(MaxOps=ctx.n(5, 8), N=ctx.n(4, 4)), inv=["Links", "Disjoint", "NoDup"], aconst="Emit", const="Bound"))
    b = ctx.build("list.c")
    ctx.conform(b, "TraceList", vp.hist_segments(h, maxn=ctx.n(6000, 60000), rng=ctx.rng) + gen(ctx.rng, ctx.n(400, 5000)))
