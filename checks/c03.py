import vp
def gen(rng, n):
    segs = []
    for i in range(n):
        s = []
        if i % 2:
            fixed = rng.random() < .3
            s.append("stack %d %d %d" % (rng.choice([0, 8, 16, 3, rng.randrange(64)]), rng.choice([16, 32, 100, 300, rng.randrange(16, 2000)]), not fixed))
            bias = rng.choice([.45, .55, .7])
            for _ in range(rng.randrange(5, 50)):
                r = rng.random()
                if r < bias: s.append("salloc %d %d" % (rng.choice([0, 1, 8, rng.randrange(64), rng.randrange(400)]), rng.choice([1, 2, 4, 8, 16, 16, 32, 64, 128])))
                elif r < .98: s.append("sfree")
                else: s.append("sfreeall")
        else:
            cap = rng.choice([64, 128, 200, 256, rng.randrange(40, 1500)])
            s.append("scratch %d %d" % (rng.choice([0, 0, 8, 16, 4, 1, rng.randrange(64)]), cap))
            bias = rng.choice([.5, .6, .7]); fifo = rng.random()
            for _ in range(rng.randrange(5, 90)):
                r = rng.random()
                if r < bias: s.append("calloc %d %d" % (rng.choice([0, 1, 8, rng.randrange(1, 40), rng.randrange(1, 40), rng.randrange(cap)]), rng.choice([4, 8, 8, 16, 16, 32, 64])))
                elif r < bias + .06: s.append("cresize %d %d %d" % (rng.randrange(32), rng.choice([1, 8, rng.randrange(1, 60)]), rng.choice([8, 16])))
                elif r < .985: s.append("cfree %d" % (0 if rng.random() < fifo else rng.randrange(32)))
                else: s.append("cfreeall")
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    b = ctx.build("stackscratch.c")
    h = ctx.mc("MCStack", vp.cfg(dict(Totals="{32, 80}", Sizes="{0, 5, 24}", Aligns="{1, 8, 16}", MaxOps=ctx.n(5, 6)), inv=["StackOK"], view="View", aconst="Emit", const="Bound"))
    segs = vp.hist_segments(h, "stk", maxn=ctx.n(1500, 10000), rng=ctx.rng)
    h = ctx.mc("MCScratch", vp.cfg(dict(Caps="{64, 104}", Sizes="{0, 8, 24, 40}", MaxOps=ctx.n(7, 9)), inv=["ScratchOK"], view="View", aconst="Emit", const="Bound"))
    segs += vp.hist_segments(h, "scr", maxn=ctx.n(1500, 10000), rng=ctx.rng)
    segs += gen(ctx.rng, ctx.n(700, 8000))
    segs = [(n, s + ["sclose"] if s and s[0].startswith("stack") else s) for n, s in segs]
    ctx.conform(b, "TraceStackScratch", segs)
