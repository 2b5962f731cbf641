import vp
from concurrent.futures import ThreadPoolExecutor
def gen(rng, n):
    segs = []
    for i in range(n):
        s = []; v = [0]
        def x(): v[0] = (v[0] + 1) % 200; return v[0]
        if rng.random() < .75:
            s.append("init 0 %d" % rng.choice([-1, 0, 1, 2, 3, 8, 20])); big = rng.random() < .3
            for _ in range(rng.randrange(5, 45)):
                r = rng.random(); a = rng.randrange(2) if "copy 0 1" in s else 0; p = rng.randrange(40 if big else 6)
                if r < .22: s.append("append %d %d" % (a, x()))
                elif r < .37: s.append("appendat %d %d %d" % (a, x(), p))
                elif r < .45: s.append("appendv %d %s" % (a, " ".join(str(x()) for _ in range(rng.randrange(0, 30 if big else 5)))))
                elif r < .55: s.append("appendvat %d %d %s" % (a, p, " ".join(str(x()) for _ in range(rng.randrange(0, 12)))))
                elif r < .62: s.append("pop %d" % a)
                elif r < .76: s.append("remove %d %d" % (a, p))
                elif r < .78: s.append("clear %d" % a)
                elif r < .83: s.append("fill %d %d %d %d" % (a, rng.randrange(4), rng.randrange(12), x()))
                elif r < .87: s.append("resize %d %d" % (a, rng.randrange(30)))
                elif r < .9: s.append("reserve %d %d" % (a, rng.randrange(60)))
                elif r < .93: s.append("setcap %d %d" % (a, rng.randrange(40)))
                elif r < .95: s.append("grow %d %d" % (a, rng.randrange(40)))
                elif r < .97: s.append("set %d %d %d" % (a, p, x()))
                else: s.append("copy %d %d" % (rng.choice([(0, 1), (0, 1), (0, 1)])) if "copy 0 1" not in s else "copy %d %d" % rng.choice([(0, 1), (1, 0)]))
        else:
            s.append("binit 0 %d" % rng.randrange(1, 30))
            for _ in range(rng.randrange(5, 40)):
                r = rng.random(); a = rng.randrange(2) if "bcopy 0 1" in s else 0
                if r < .5: s.append("bappend %d %d" % (a, x()))
                elif r < .65: s.append("bappendv %d %s" % (a, " ".join(str(x()) for _ in range(rng.randrange(0, 6)))))
                elif r < .9: s.append("bpop %d" % a)
                elif r < .93: s.append("bclear %d" % a)
                else: s.append("bcopy 0 1" if "bcopy 0 1" not in s else "bcopy 1 0")
        segs.append(("rnd%d" % i, s))
    return segs
def run(ctx):
    h = ctx.mc("MCSeq", vp.cfg(dict(MaxOps=ctx.n(4, 5), Buffer="FALSE"), inv=["SeqOK"], props=["NoLoss"], aconst="Emit", const="Bound"), tag="MCSeqArray")
    base = vp.hist_segments(h, "arr", maxn=ctx.n(3000, 40000), rng=ctx.rng)
    h = ctx.mc("MCSeq", vp.cfg(dict(MaxOps=ctx.n(5, 7), Buffer="TRUE"), inv=["SeqOK"], props=["NoLoss"], aconst="Emit", const="Bound"), tag="MCSeqBuffer")
    base += vp.hist_segments(h, "buf")
    with ThreadPoolExecutor(5) as ex: bins = list(ex.map(lambda t: ctx.build("seq.c", name="seq%d" % t, flags=["-DVP_T=%d" % t]), range(5)))
    ctx.conform_multi([(b, (base if t == 2 else base[t::8]) + gen(ctx.rng, ctx.n(100, 1500))) for t, b in enumerate(bins)], "TraceSeq")
