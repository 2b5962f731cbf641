import vp
def gen(rng, n, ops):
    segs = []
    for i in range(n):
        mode = rng.randrange(4)
        base = rng.choice([0, 0, 16, 1, 3, 8, rng.randrange(64)])
        cap = rng.choice([rng.randrange(8, 64), rng.randrange(64, 600), rng.randrange(600, 5000)])
        s = ["init 0 %d %d %d" % (base, cap, mode == 3)]
        nar = 1
        for _ in range(rng.randrange(5, ops)):
            a = rng.randrange(nar)
            r = rng.random()
            al = rng.choice([1, 2, 4, 8, 16, 16, 16, 32, 64, 128, 256, 1024])
            if al > cap and rng.random() < .8: al = 16
            size = rng.choice([0, 1, rng.randrange(32), rng.randrange(32), rng.randrange(max(1, cap // 2)), rng.randrange(cap + 40)])
            if r < .55: s.append("alloc %d %d %d" % (a, size, al))
            elif r < .7: s.append("resize %d %d %d %d" % (a, rng.randrange(8), size, al))
            elif r < .8: s.append("snapb %d" % a)
            elif r < .92: s.append("snape %d" % a)
            elif r < .94: s.append("free %d %d" % (a, rng.randrange(8)))
            elif r < .97: s.append("freeall %d" % a)
            elif nar < 4 and not any(x.startswith("snap") for x in s):
                s.append("sub %d %d %d" % (nar, a, rng.choice([16, 48, 100, cap // 2, cap * 2]))); nar += 1
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    b = ctx.build("arena.c")
    c = dict(Bases="{0, 3}", Caps="{5, 8}", Sizes="{0, 1, 3, 4}", Aligns="{1, 2, 4}", MaxOps=ctx.n(4, 5))
    h = ctx.mc("MCArena", vp.cfg(c, inv=["ArenaOK"], props=["SnapRestores", "LiveKept"], view="View", aconst="Emit", const="Bound"))
    segs = vp.hist_segments(h, maxn=ctx.n(1500, 12000), rng=ctx.rng)
    segs += gen(ctx.rng, ctx.n(400, 6000), 40)
    ctx.conform(b, "TraceArena", segs)
