import vp, itertools
def run(ctx):
    rng = ctx.rng
    h = ctx.mc("MCFs", vp.cfg(dict(MaxOps=ctx.n(5, 6)), spec="MSpec", inv=["TreeOK", "NoOrphans"], view="View", aconst="Emit"), workers=6, timeout=2400)
    fin = ["list . 1", "list a 0", "info .", "type a", "exists a/b"]
    segs = [(n, s + fin) for n, s in vp.hist_segments(h, maxn=ctx.n(1800, 40000), rng=rng)]
    N = ["a", "b", "..x", ".h", "...", "n.t"]
    for i in range(ctx.n(300, 6000)):
        s = []
        if rng.random() < .25: s.append("limit %d" % rng.choice([0, 2, 9]))
        P = lambda: "/".join(rng.choice(N[:rng.choice([2, 3, 6])]) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        by = lambda: " ".join(str(rng.randrange(256)) for _ in range(rng.choice([0, 1, 3, 10, 40])))
        for _ in range(rng.randrange(6, 45)):
            p, q = P(), P()
            s.append(rng.choice(["wr %s %s" % (p, by())] * 4 + ["mkdir " + p, "mkdirr " + p, "mkdirr %s" % p.replace("/", rng.choice(["/", "//"])) + rng.choice(["", "/"])] + ["rmdir " + p, "rm " + p] + ["cp %s %s %d" % (p, q, rng.randrange(2))] * 3 + ["mv %s %s" % (p, q)] * 3 +
                     ["exists " + p, "type " + p, "list %s %d" % (rng.choice([p, "."]), rng.randrange(2)), "info " + rng.choice([p, "."]), "full " + p, "times %s %s" % (p, " ".join(str(rng.choice([5, 6, 1000000, 1700000000])) for _ in range(rng.randrange(1, 5)))), "refresh %s %d" % (p, rng.randrange(2))]))
        segs.append(("rnd%d" % i, s + ["list . 1", "info ."]))
    long = "/".join(["d" * 60] * 4)
    segs.append(("deep", ["mkdirr " + long, "wr %s/f 1 2 3" % long, "info " + long, "refresh %s/f 1" % long, "wr f 9", "refresh f 1", "info %s" % long, "list . 1"]))
    segs.append(("same", ["wr a 1 2 3", "cp a a 0", "cp a a 1", "cp a ./a 0", "mv a a", "cp nope b 0", "mkdir d", "cp d e 0", "cp a d 0", "cp nope a 0"]))
    segs.append(("shrink", ["wr a 1", "wr b 1 2 3 4 5", "cp a b 0", "cp b a 1", "mv a b", "rm b", "mv a b"]))
    segs.append(("special", ["special", "toolong"]))
    al = b"a/.\\:"
    ps = [bytes(t) for k in range(0, 5) for t in itertools.product(al[:3] if k > 3 else al, repeat=k)] + [bytes(rng.choice(b"ab./.\\:\xc3") for _ in range(rng.randrange(5, 40))) for _ in range(ctx.n(200, 4000))]
    for i in range(0, len(ps), 50): segs.append(("path%d" % i, ["path " + vp.hx(p) for p in ps[i:i + 50]]))
    ctx.conform(ctx.build("fs.c"), "TraceFs", segs)
