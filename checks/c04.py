import vp
def gen(rng, n):
    segs = []
    for i in range(n):
        s = []; N = rng.randrange(1, 10)
        for _ in range(rng.randrange(5, 50)):
            r = rng.random(); k = rng.randrange(N); al = rng.choice([1, 2, 4, 8, 16, 16, 16, 32, 64, 128, 256, 1024]); size = rng.choice([0, 1, 16, rng.randrange(64), rng.randrange(2000)])
            if r < .4: s.append("alloc %d %d %d" % (k, size, al))
            elif r < .55: s.append("copy %d %d %s" % (k, rng.randrange(4), vp.hx(rng.randbytes(rng.choice([0, 1, 7, 8, rng.randrange(200)])))))
            elif r < .75: s.append("resize %d %d %d" % (k, size, al))
            elif r < .98: s.append("free %d" % k)
            else: s.append("vm 0 %d" % rng.choice([1, 4096, 5000, rng.randrange(1, 100000)]))
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    h = ctx.mc("MCHeap", vp.cfg(dict(Sizes="{1, 4}", Als="{1, 4}", MaxOps=ctx.n(4, 5)), inv=["HeapOK"], view="View", aconst="Emit", const="Bound"))
    segs = vp.hist_segments(h, maxn=ctx.n(600, 5000), rng=ctx.rng) + gen(ctx.rng, ctx.n(300, 4000))
    for name, fl in (("plain", []), ("analysis", ["-DVP_ANALYSIS"])):
        b = ctx.build("heap.c", name="heap_" + name, flags=fl)
        ctx.conform(b, "TraceHeap", segs, label=name)
