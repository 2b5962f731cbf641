import vp
def gen(rng, n):
    segs = []
    for i in range(n):
        N = rng.choice([1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 60)])
        al = rng.choice([1, 2, 4, 8, 16, 16, 32, 64])
        bs = rng.choice([1, 2, 3, 4, 7, 8, 12, 16, 24, 40, rng.randrange(1, 200)])
        s = ["init %d %d %d" % (N, bs, al)]
        bias = rng.choice([.5, .6, .8])
        for _ in range(rng.randrange(4, 3 * N + 30)):
            r = rng.random()
            if r < bias: s.append("alloc")
            elif r < .985: s.append("free %d" % rng.randrange(64))
            else: s.append("freeall")
        s += ["alloc"] * N
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    b = ctx.build("pool.c")
    c = dict(Ns="{1, 2, 3}", Bss="{1, 3, 8}", Als="{1, 4, 16}", MaxOps=ctx.n(7, 9))
    h = ctx.mc("MCPool", vp.cfg(c, inv=["PoolOK", "CanFill"], view="View", aconst="Emit", const="Bound"))
    # the paths TLC finds are shortest; every order of frees matters for a recycling list, so also all op words up to a length
    segs = vp.hist_segments(h)
    import itertools
    words = list(itertools.product(["alloc", "free 0", "free 1", "freeall"], repeat=ctx.n(5, 7)))
    for (n, bs, al) in [(1, 8, 16), (2, 2, 16), (3, 24, 8)]:
        segs += [("w%d_%s" % (n, "".join(o[0] + o[-1] for o in w)), ["init %d %d %d" % (n, bs, al)] + list(w)) for w in (words if n > 1 else words[::7])]
    segs += gen(ctx.rng, ctx.n(300, 4000))
    ctx.conform(b, "TracePool", segs)
