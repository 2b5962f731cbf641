import vp
from concurrent.futures import ThreadPoolExecutor
def gen(rng, n):
    segs = []
    for i in range(n):
        c = rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 100]); s = ["init %d" % c]; v = 0
        bias = rng.choice([.3, .5, .7])
        for _ in range(rng.randrange(10, 80)):
            r = rng.random()
            if r < bias: v = v % 200 + 1; s.append("append %d" % v)
            elif r < bias + .1:
                k = rng.choice([0, 1, c, c + 1, 2 * c + 1]) if rng.random() < .5 else rng.randrange(0, 6)
                s.append("appendv " + " ".join(str((v + j) % 200 + 1) for j in range(k))); v += k
            elif r < .92: s.append("get")
            else: s.append("getv %d" % rng.choice([0, 1, 2, c, c + 1, rng.randrange(c + 3)]))
        s += ["getv %d" % (c + 1), "get"]
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    h = ctx.mc("MCRing", vp.cfg(dict(MaxOps=ctx.n(6, 8)), inv=["RingOK", "Abs"], aconst="Emit", const="Bound"))
    base = [(n, s + ["getv 9", "get"]) for n, s in vp.hist_segments(h, maxn=ctx.n(3000, 60000), rng=ctx.rng)]
    with ThreadPoolExecutor(4) as ex: bins = list(ex.map(lambda t: ctx.build("ring.c", name="ring%d" % t, flags=["-DVP_T=%d" % t]), range(4)))
    ctx.conform_multi([(b, (base if t == 1 else base[t::8]) + gen(ctx.rng, ctx.n(150, 2500))) for t, b in enumerate(bins)], "TraceRing")
