import vp
MODES = ["r", "w", "a", "r+", "w+", "a+"]
def run(ctx):
    rng = ctx.rng
    c = dict(Paths='{"a"}', Handles='{"h0", "h1"}', MaxOps=ctx.n(4, 6), MaxLen=4)
    h = ctx.mc("MCDisk", vp.cfg(c, spec="MSpec", inv=["OpenExists"], props=["Quiet"], view="View", aconst="Emit", const="Bound"), workers=6, timeout=2400)
    fin = ["close h0", "close h1", "rcont a 1", "lines a 1", "lines b 0"]
    segs = [(n, s + fin) for n, s in vp.hist_segments(h, maxn=ctx.n(2500, 60000), rng=rng)]
    def by(m):
        if rng.random() < .4: return " ".join(str(rng.choice([10, 10, 13, 32, 9, 65, 66])) for _ in range(m))
        return " ".join(str(rng.randrange(256)) for _ in range(m))
    for i in range(ctx.n(350, 8000)):
        s = []; up = {}
        if rng.random() < .3: s.append("limit %d" % rng.choice([0, 1, 3, 8, 20]))
        for _ in range(rng.randrange(5, 40)):
            hh = "h%d" % rng.randrange(3); m = rng.choice([0, 1, 2, 5, 17, 60]); o = rng.choice([-5, -1, 0, 1, 5, 9, rng.randrange(90)]); p = rng.choice("aab")
            if hh not in up and rng.random() < .8:
                r = rng.random(); mode = rng.choice(MODES)
                if r < .1: s.append("temp " + hh); up[hh] = 1
                elif r < .2: s.append("openu %s %s %s" % (hh, p, mode)); s.append("close " + hh)
                else: s.append("open %s %s %s" % (hh, p, mode)); up[hh] = mode
                if r >= .2 and mode in ("r", "r+"): s.insert(len(s) - 1, "wcont %s %s" % (p, by(m)))
            elif hh in up:
                q = rng.choice(["write %s " % hh + by(m)] * 3 + ["read %s %d" % (hh, m)] * 2 + ["writeat %s %d %s" % (hh, o, by(m)), "readat %s %d %d" % (hh, o, m), "seek %s %d" % (hh, o), "skip %s %d" % (hh, rng.choice([-3, -1, 0, 1, 4])), "end " + hh, "trunc %s %d" % (hh, o), "close " + hh])
                if q.startswith("close"): del up[hh]
                s.append(q)
            else: s.append(rng.choice(["wcont %s %s" % (p, by(m)), "rcont %s %d" % (p, rng.randrange(2)), "lines %s %d" % (p, rng.randrange(2)), "openbad %s %s" % (rng.choice(["dir", "long", "nodir", "empty"]), rng.choice(["w", "r+", "a", "w+"]))]))
        segs.append(("rnd%d" % i, s + ["close " + x for x in up] + ["rcont a 1", "rcont b 0", "lines a 1", "lines b 0"]))
    for i, n in enumerate([4095, 4096, 4097, 20000]): segs.append(("big%d" % i, ["wcont a " + by(min(n, 4000))] + ["open h0 a a", "write h0 " + by(max(0, min(n - 4000, 4000))), "close h0", "rcont a 1", "lines a 0"]))
    def pb(m): return " ".join(str(rng.randrange(200)) for _ in range(m))
    # pipes and the standard streams
    h = ctx.mc("MCPipe", vp.cfg(dict(MaxOps=ctx.n(6, 8)), spec="MSpec", inv=["PipeOK"], props=["Order"], view="View", aconst="Emit"))
    segs += vp.hist_segments(h, "pipe", maxn=ctx.n(400, 8000), rng=rng)
    for i in range(ctx.n(80, 1000)):
        s = ["pipe %d" % (i % 2)]
        for _ in range(rng.randrange(4, 30)):
            s.append(rng.choice(["pwrite " + pb(rng.choice([1, 3, 20, 60]))] * 3 + ["pput " + pb(rng.choice([1, 9, 50])), "pread %d" % rng.choice([1, 2, 16, 70, 500])] + ["pget %d" % rng.choice([1, 2, 16, 70])] * 2 + (["pfill %d" % rng.choice([300, 2000, 4096, 5000])] if i % 5 == 0 else [])))
            if rng.random() < .25: s += rng.choice([["open h0 a w", "write h0 " + by(rng.choice([1, 5])), "write h0 " + by(3), "close h0"], ["open h1 b a+", "write h1 " + by(4), "read h1 9", "close h1"], ["wcont a " + by(5)], ["rcont a 1"]])     # a file in between
        segs.append(("rpipe%d" % i, s + ["pend", "pread 40", "pget 5000", "pget 5000", "pread 3"]))
    ctx.conform(ctx.build("disk.c"), "TraceDisk", segs, cfg="SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Paths <- TPaths\nCONSTANT Handles <- THandles\n")
