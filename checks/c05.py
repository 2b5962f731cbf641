import vp
def run(ctx):
    ctx.mc("MCMem", "INIT Init\nNEXT Next\n" + "\n".join(vp.cfg(dict(N=ctx.n(3, 4), Vals="{0, 1, 2}"), inv=["Laws", "Al"], props=["Frame"]).split("\n")).replace("SPECIFICATION Spec", "").replace("INIT Init\nNEXT Next\n", ""), emit=False)
    rng = ctx.rng; segs = []; k = ctx.n(1, 4)
    def seg(name, N, ops, mod=251, sh=None):
        segs.append((name, ["new %d %d %d %d" % (rng.randrange(8) if sh is None else sh, N, rng.randrange(1 << 30), mod)] + ops))
    # every distance, length and alignment of overlapping and disjoint moves on a small memory
    for sh in range(8):
        ops = ["move %d %d %d" % (d, s, n) for d in range(0, 26) for s in range(0, 26) for n in range(0, 27 - max(d, s))]
        seg("move%d" % sh, 26, [o for o in ops if rng.random() < .022 * k], sh=sh)
        seg("movelong%d" % sh, 90, ["move %d %d %d" % (d, s, n) for s in (8, 9, 11) for d in range(0, 24) for n in (16, 40, 63) if d + n <= 90 and rng.random() < .2 * k], sh=sh)
        seg("set%d" % sh, 80, ["set %d %d %d" % (rng.randrange(0, 3), (n * 37 + sh) % 256, n) for n in range(0, 78)], sh=sh)
        seg("setbig%d" % sh, 300, ["%s %d %d %d" % (rng.choice(["set", "set", "zero"]), rng.randrange(20), rng.randrange(256) if True else 0, rng.randrange(60, 280)) if rng.random() < 2 else "" for _ in range(8 * k)], sh=sh)
        seg("swap%d" % sh, 64, ["swap %d %d %d" % (i, rng.choice([i, 32, 33, 40]), n) for n in range(0, 20) for i in (0, 1, 5)], sh=sh)
        seg("swapbig%d" % sh, 1300, ["swap %d %d %d" % (rng.randrange(8), 650 + rng.randrange(8), n) for n in (255, 256, 257, 511, 512, 513, 600, 640)[sh % 2::2 if k == 1 else 1]], sh=sh)
        for mod in (2, 3, 8, 256):
            seg("find%d_%d" % (sh, mod), 70, ["%s %d %d %d" % (rng.choice(["chr", "rchr"]), rng.randrange(30), rng.choice([0, 1, 2, 127, 128, 129, 255, rng.randrange(256)]), rng.randrange(41)) for _ in range(60 * k)] +
                ["set %d %d %d" % (rng.randrange(60), rng.choice([1, 127, 128, 255]), 1) for _ in range(4)] + ["chr 0 %d 70" % c for c in (0, 1, 127, 128, 254, 255)] + ["rchr 0 %d 70" % c for c in (0, 1, 127, 128, 254, 255)], mod, sh)
            seg("cmp%d_%d" % (sh, mod), 60, ["copy 30 0 30"] + ["cmp %d %d %d" % (rng.randrange(30), rng.choice([30, rng.randrange(30)]), rng.randrange(31)) for _ in range(40 * k)] + ["cmp 0 30 30", "set 45 %d 1" % rng.randrange(256), "cmp 0 30 30", "cmp 30 0 30", "cmp 0 30 15", "cmp 0 30 16"], mod, sh)
    for n in range(0, 60):   # one differing byte in a run of equal ones, searched from every start
        for v, w in ((7, 9), rng.choice([(7, 200), (127, 128), (254, 255), (255, 254), (1, 129), (0, 128), (128, 0), (255, 127)])):
            seg("one%d_%d" % (n, w), 64, ["set 0 %d 64" % v, "set %d %d 1" % (n, w)] + ["chr %d %d %d" % (o, w, ln) for o in range(0, 20, 3) for ln in {max(0, n - o), max(0, n - o + 1), 40} if o + ln <= 64] + ["rchr %d %d %d" % (o, w, 40) for o in (0, 5)], 2)
    segs.append(("align", ["align %d %d" % (v, a) for v in list(range(-20, 70)) + [1000, 65535, 65536, 1 << 20] for a in list(range(1, 18)) + [32, 64, 100, 256, 4096]]))
    segs.append(("pow", ["align 5 %d" % (a) for i in range(1, 30) for a in ((1 << i) - 1, 1 << i, (1 << i) + 1)]))
    for i in range(ctx.n(30, 400)):   # mixed histories
        N = rng.choice([12, 40, 100, 200]); ops = []
        for _ in range(40):
            o = rng.choice(["move", "move", "move", "copy", "swap", "cmp", "chr", "rchr", "set", "zero"]); n = rng.randrange(N)
            ops.append("%s %d %d %d" % (o, rng.randrange(N), rng.randrange(N) if o not in ("set", "chr", "rchr") else min(rng.randrange(256), N - n), n))
        seg("mix%d" % i, N, ops, rng.choice([2, 256]))
    ctx.conform_multi([(ctx.build("mem.c"), segs), (ctx.build("mem.c", name="mem3", opt="-O3", asan=False), segs[::3])], "TraceMem")
