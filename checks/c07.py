import vp
def gen(rng, n, thorough):
    segs = []
    for i in range(n):
        nk = rng.choice([3, 6, 10, 20, 40]) if not thorough else rng.choice([3, 8, 20, 60, 150])
        kind = rng.randrange(5)
        if kind == 0: ks = rng.sample(range(3 * nk), nk)
        elif kind == 1: ks = [8 * j + (j % 2) * 16 for j in range(nk)]
        elif kind == 2: ks = [rng.getrandbits(64) for _ in range(nk)]
        elif kind == 3: ks = [(1 << 64) - 1 - rng.randrange(4 * nk) for _ in range(nk)]
        else: ks = [(1 << rng.randrange(64)) + rng.randrange(3) for _ in range(nk)]
        ks = sorted(set(k % (1 << 64) for k in ks)); rng.shuffle(ks); nk = len(ks)
        s = ["keys " + " ".join(map(str, ks))]
        grow = rng.choice([.35, .5, .7])
        for _ in range(rng.randrange(5, 3 * nk + 10)):
            r = rng.random(); k = rng.randrange(nk)
            if r < grow: s.append("set %d %d" % (k, rng.randrange(500)))
            elif r < .88: s.append("remove %d" % k)
            elif r < .90: s.append("removeall " + " ".join(str(rng.randrange(nk)) for _ in range(rng.randrange(1, 5))))
            elif r < .91: s.append("clear")
            elif r < .95: s.append("rehash %d" % rng.choice([0, 1, 2, nk // 2, nk, 2 * nk]))
            elif r < .97: s.append("rehashfast")
            elif r < .98: s.append("grow")
            else: s.append("mapmut %d" % rng.randrange(1, 9))
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    h = ctx.mc("TableImpl", vp.cfg(dict(Keys="{0, 1, 2, 5}", Vals="{1, 2}", MaxOps=ctx.n(4, 6)), inv=["NoDup", "AllReachable", "Acyclic"], props=["Refines"], view="View", aconst="Emit", const="Bound"))
    segs = vp.hist_segments(h, maxn=ctx.n(2500, 20000), rng=ctx.rng)
    # with the library's real growth formula: start from a table just below its growth points and near collisions
    out = []
    for j, (n, s) in enumerate(segs):
        if j % 3 == 1: s = ["keys 0 8 16 24 32 40 1 9"] + s
        if j % 3 == 2: s = ["keys 0 1 2 3 4 5 " + " ".join(str(100 + i) for i in range(6))] + ["set %d 9" % i for i in range(6, 12)] + s
        out.append((n, s))
    b = [ctx.build("table.c", name="table%d" % t, flags=["-DVP_T=%d" % t]) for t in (0, 1)]
    ctx.conform_multi([(b[0], out), (b[0], gen(ctx.rng, ctx.n(150, 1500), ctx.thorough)), (b[1], out[::4] + gen(ctx.rng, ctx.n(60, 600), ctx.thorough))], "TraceTable")
