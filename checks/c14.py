import vp, struct
def bits(d): return struct.unpack("<Q", struct.pack("<d", d))[0]
def run(ctx):
    rng = ctx.rng
    W = "{0, 1, 5, 12}" if not ctx.thorough else "{0, 1, 2, 5, 12, 23}"
    P = "{99, 1, 4, 9}" if not ctx.thorough else "{99, 0, 1, 2, 4, 9, 24}"
    H = ctx.mc("MCPrint", vp.cfg(dict(Widths=W, Precs=P), inv=["Laws"], aconst="Emit"), workers=4, timeout=1200)
    H = [h[0] for h in H]
    tov = lambda l: sum(x << (16 * k) for k, x in enumerate(l))
    pick = rng.sample(H, min(len(H), ctx.n(1800, 30000)))
    segs = []
    # TLC's directives, three to a format, with every small buffer size now and then
    for i in range(0, len(pick) - 3, 3):
        g = pick[i:i + 3]
        fmt = b"".join(rng.choice([b"", b"<", b" ", b"ab"]) + bytes(h["f"]) for h in g) + rng.choice([b"", b">", b"%%", b"0"])
        n = rng.choice([0, 1, 2, 3, rng.randrange(4, 60), 200, 200])
        segs.append(("mc%d" % i, ["print %d %s %s" % (n, vp.hx(fmt), " ".join("i%d" % tov(h["v"]) for h in g))]))
    def iv(): return rng.choice([0, 1, 7, 42, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, rng.getrandbits(64), rng.getrandbits(rng.randrange(1, 64)), (1 << 64) - rng.randrange(1, 100000)])
    def txt(n=14): return bytes(rng.choice(b"abcXYZ 0-%.\n\xc3\xa9\x7f") for _ in range(rng.randrange(0, n)))
    def wid(args, zero):
        r = rng.random()
        if r < .4: return b""
        if r < .75: return b"%d" % rng.choice([1, 2, 3, 5, 8, 13, 20, 37])
        w = rng.choice([1, 2, 4, 9, 17, -1, -6, -15]); args.append("i%d" % (w & 0xffffffff if rng.random() < .5 else w & ((1 << 64) - 1))); return b"*"
    def directive(exact=True):
        args = []
        k = rng.choice("dddiuuxXoccsssspr%ff" if exact else "f")
        if k == "%": return b"%%", []
        zero = k in "diuxXof" and rng.random() < .3
        w = wid(args, zero)
        fl = (b"-" if rng.random() < .3 and k != "r" else b"") + (b"0" if zero and w else b"")
        if len(fl) == 2 and rng.random() < .5: fl = b"0-"
        if k in "diuxXo":
            p = b"" if rng.random() < .6 else b"." + (b"%d" % rng.choice([1, 2, 4, 10, 25, 70]))
            if p and rng.random() < .3: p = b".*"; args.append("i%d" % rng.choice([1, 3, 11, 30, 0xffffffff]))
            z = rng.choice([b"", b"", b"h", b"hh", b"l", b"ll", b"z", b"t"])
            v = iv()
            if z == b"z" and k in "di": k = rng.choice("uxXo")     # %zd prints unsigned here: outside the subset
            args.append("i%d" % v)
            return b"%" + fl + w + p + z + k.encode(), args
        if k == "c": args.append("i%d" % rng.randrange(1, 256)); return b"%" + fl + w + b"c", args
        if k == "r": args.append("i%d" % rng.randrange(1, 256)); return b"%" + w + b"r", args
        if k == "p": args.append("i%d" % iv()); return b"%" + fl + w + b"p", args
        if k == "s":
            p = b"" if rng.random() < .5 else b"." + (b"%d" % rng.choice([0, 1, 2, 4, 9, 40]))
            if p and rng.random() < .3: p = b".*"; args.append("i%d" % rng.choice([0, 1, 3, 11, 0xffffffff]))
            args.append("n" if rng.random() < .08 else "s" + vp.hx(txt()))
            return b"%" + fl + w + p + b"s", args
        if exact: v = rng.choice([-1, 1]) * rng.randrange(0, 1 << rng.randrange(1, 40)) / (1 << rng.randrange(0, 9)); p = rng.choice([0, 1, 2, 3, 6, 8, 9])
        else:
            v = rng.choice([-1, 1]) * rng.choice([rng.random(), rng.random() * 10 ** rng.randrange(-6, 18), rng.choice([.1, .2, .3, .999999999, 9.99, 1e15, 123456.789, 1 / 3])]); p = rng.choice([0, 1, 2, 3, 6, 9, 12])
        ps = b"" if p == 6 else b".%d" % p
        if p != 6 and rng.random() < .2: ps = b".*"; args.append("i%d" % p)
        args.append("d%d" % bits(v))
        return b"%" + fl + w + ps + b"f", args
    for i in range(ctx.n(900, 20000)):
        f, a = b"", []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            d, x = directive()
            if len(a) + len(x) > 11: break
            f += rng.choice([b"", b"", txt(5).replace(b"%", b"")]) + d; a += x
        f += txt(4).replace(b"%", b"")
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randrange(1, 80), 3000, 3000, 3000])
        segs.append(("rnd%d" % i, ["print %d %s %s" % (n, vp.hx(f), " ".join(a))]))
    for i in range(ctx.n(250, 6000)):
        while True:
            f, a = directive(False)
            if len(a) == 1: break
        segs.append(("flt%d" % i, ["printf1 %d %s %s" % (rng.choice([0, 1, 4, 9, 400]), vp.hx(f), " ".join(a))]))
    # bounds only: directives cut short or unknown
    for i, f in enumerate([b"%", b"%-", b"abc%", b"%5", b"%05", b"%.", b"%5.", b"%.3", b"%l", b"%ll", b"%h", b"%hh", b"%z", b"%q", b"%-*", b"%5q|", b"%+d", b"% d", b"%#x", b"%#o", b"%05d", b"%0d", b"%g", b"%5.0d", b"%.200d", b"%300d", b"%300s", b"%.300f", b"%-300c|", b"%300r", b"%0300x"]):
        for n in (0, 1, 2, 7, 64):
            segs.append(("odd%d_%d" % (i, n), ["odd %d %s %s" % (n, vp.hx(f), "d%d" % bits(2.5) if f[-1:] in b"fg" else "s" + vp.hx(b"xyz") if f[-1:] == b"s" else "i7")]))
    segs.append(("long", ["long %d" % k for k in (0, 1, 7, 1000, 70000)]))
    ctx.conform(ctx.build("print.c"), "TracePrint", segs)
