import vp
def run(ctx):
    rng = ctx.rng
    h = ctx.mc("MCStream", vp.cfg(dict(MaxOps=ctx.n(4, 5)), spec="MSpec", inv=["CursorOK", "FixedOK"], props=["Steps"], aconst="Emit"), workers=4, timeout=1500)
    segs = [(n, s + ["end", "close"]) for n, s in vp.hist_segments(h, maxn=ctx.n(3000, 60000), rng=rng)]
    for i in range(ctx.n(250, 5000)):
        n = rng.choice([0, 1, 3, 8, 30, 100]); k = rng.choice(["new", "grow", "grow", "fixed", "ro"])
        by = lambda m: " ".join(str(rng.randrange(256)) for _ in range(m))
        s = [k + " " + (by(n) if k != "new" else "")]
        for _ in range(rng.randrange(5, 50)):
            m = rng.choice([0, 1, 2, 5, 17, 60]); o = rng.choice([-5, -1, 0, 1, n // 2, n - 1, n, n + 1, n + 9, rng.randrange(200)])
            s.append(rng.choice(["write " + by(m)] * 3 + ["read %d" % m] * 2 + ["writeat %d %s" % (o, by(m)), "readat %d %d" % (o, m), "seek %d" % o, "skip %d" % rng.choice([-3, -1, 0, 1, 4, o]), "end"]))
        segs.append(("rnd%d" % i, s + ["readat 0 400", "close"]))
    ctx.conform(ctx.build("stream.c"), "TraceStream", segs)
