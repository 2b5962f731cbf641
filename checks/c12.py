import vp
def run(ctx):
    rng = ctx.rng
    ctx.mc("MCNum", vp.cfg(inv=["RT"]) + "CONSTANT LB <- LBSmall\nCONSTANT NL <- NLSmall\n", emit=False, workers=4)
    vals = {0, 1, 9, 10, 35, 36, 63, 64, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1}
    for k in range(64): vals |= {1 << k, (1 << k) - 1, (1 << 64) - (1 << k)}
    for b in range(2, 37):
        e = 1
        while e < 1 << 64: vals |= {e, e - 1, (1 << 64) - e}; e *= b
    vals = sorted(v % (1 << 64) for v in vals)
    segs = []
    for b in list(range(2, 37)) + [37, 62, 63, 64]:
        vs = rng.sample(vals, ctx.n(22, 400)) + [0, (1 << 64) - 1, 1 << 63, (1 << 63) - 1] + [rng.getrandbits(rng.randrange(1, 65)) for _ in range(ctx.n(10, 200))]
        segs.append(("fmt%d" % b, ["%s %d %d" % (o, v, b) for v in vs for o in ("u2s", "i2s")]))
    def t(): return "".join(rng.choice("0123456789abcdefxXzZ-+ .g@") if rng.random() < .3 else rng.choice("0123456789aF") for _ in range(rng.randrange(0, 20)))
    fixed = ["", "-", "0", "-0", "0x", "0x1", "0xg", "-0x1f", "0X1f", "1-2", "--1", "+5", " 5", "12abc", "-12abc", "zz", "ZZ", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0xffffffffffffffff", "0x10000000000000000", "00012", "-00012", "0x0x1"]
    for i in range(ctx.n(60, 900)):
        ss = [rng.choice(["", "", "-", "0x", "-0x"]) + t() for _ in range(12)] + (fixed if i < 8 else [])
        segs.append(("parse%d" % i, ["%s %s %d" % (o, vp.hx(s), [0, 16, 10, 2, 8, 36, 3, 11][i] if i < 8 else rng.choice([0, 0, 10, 16, 2, 8, 36, rng.randrange(2, 37)])) for s in ss for o in ("s2u", "s2i")]))
    def num():
        ip = str(rng.getrandbits(rng.randrange(1, 55))) if rng.random() < .9 else ""
        fr = "." + "".join(rng.choice("0123456789") for _ in range(rng.randrange(0, 12))) if rng.random() < .6 else ""
        if not ip and len(fr) < 2: ip = "0"
        ex = rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randrange(0, rng.choice([4, 20, 60, 250]))) if rng.random() < .4 else ""
        return rng.choice(["", "", "-", "+", " ", "\t-"]) + ip + fr + ex + rng.choice(["", "", "", "x", " 1", "e", ".5", "-"])
    ff = ["0", "-0", "0.0", "1", "-1", "1.", ".5", "-.25", "1e", "1e+", "9007199254740992", "9007199254740991", "-9007199254740992", "123456789012345678901234567890", "1e22", "1e23", "1e49", "1e50", "1e58", "1e100", "1e-5", "1e-22", "1e-200", "1e250", "0.1", "0.2", "3.14159265358979", "", "abc", "-", "4503599627370497.5", "0.000001", "1E5", "1e05", "12e-1", "1e8", "1e7", "1e9", "5e0", "1e-8", "1e-50"]
    for i in range(ctx.n(6, 60)):   # exponents up to the largest the conversion takes (308), value in the normal range
        big = []
        for _ in range(10):
            e = rng.randrange(250, 309); nd = rng.randrange(1, max(2, min(12, 308 - e)))
            m = "".join(rng.choice("123456789") for _ in range(nd)); m = m if e + nd < 308 else "1"
            big.append("%s%s%s%d" % (m, rng.choice(["", ".5", ".25"]), rng.choice(["e", "E+"]), e))
            e = rng.randrange(250, 300); big.append("%s%se-%d" % ("".join(rng.choice("123456789") for _ in range(rng.randrange(1, 12))), rng.choice(["", ".75"]), e))
        segs.append(("fexp%d" % i, ["s2f " + vp.hx(s) for s in big]))
    segs.append(("ffix", ["s2f " + vp.hx(s) for s in ff]))
    for i in range(ctx.n(40, 800)): segs.append(("float%d" % i, ["s2f " + vp.hx(num()) for _ in range(20)]))
    ctx.conform(ctx.build("num.c"), "TraceNum", segs)
    segs = []; al = "0123456789.eE+-xXaf "
    ns = ff + fixed + ["1.2.3", "10.0.0.1", "1e3.5", "1.", ".5", ".", "-.", "+", "1..2", "0x", "0xfg", "-0", "-0.0", "+7", "1e5", "1E-3", "007", "12abc", "1.5 ", " 1", "9223372036854775807", "9223372036854775808", "1e18", "1e19", "-9223372036854775808", "0x1.5", "-.5e-2", "1e", "1e+", "1ee5", "2.5e1", "0e5", "0.0e0"]
    ns += [num().strip() for _ in range(ctx.n(500, 10000))] + ["".join(rng.choice(al) for _ in range(rng.randrange(1, 7))) for _ in range(ctx.n(700, 20000))]
    ns += [a + b + c for a in ("", "-", "+") for b in ("1", "0", ".", "1.", ".2", "3.4", "0x1f", "") for c in ("", "e1", "E-2", "e", ".", "x", " ", "e1.")]
    for i in range(0, len(ns), 20): segs.append(("num%d" % i, ["%s %s %d" % (o, vp.hx(t), s) for t in ns[i:i + 20] for o in ("num", "conv") for s in (0, 1)]))
    ctx.conform(ctx.build("json.c"), "TraceJson", segs, label="nodes")
