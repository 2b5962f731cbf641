import vp
EDGE = [0x00, 0x01, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]
def run(ctx):
    rng = ctx.rng
    ctx.mc("MCUtf", vp.cfg(dict(Bytes="{0, 127, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 225, 237, 239, 240, 244, 245, 255}" if ctx.thorough else "{65, 128, 143, 144, 160, 191, 193, 194, 224, 237, 240, 244, 245}"), inv=["RT", "Inv", "Tot"]), emit=False, workers=4)
    segs = [("enc%d" % i, ["enc %d %d %d" % (a, b, st)]) for i, (a, b, st) in enumerate([(0, 0x110, 1), (0x7f0, 0x820, 1), (0xd7f0, 0xd810, 1), (0xdff0, 0xe010, 1), (0xfff0, 0x10010, 1), (0x10fff0, 0x110010, 1)])]
    segs += [("encw%d" % i, ["enc %d %d %d" % (i * 0x2200 + rng.randrange(7), (i + 1) * 0x2200, ctx.n(71, 7))]) for i in range(129)]
    def dec(n, bs): segs.append((n, ["dec " + vp.hx(b) for b in bs] + ["size " + vp.hx(b) for b in bs[::7]]))
    two = [bytes([a, b]) for a in EDGE for b in EDGE]; dec("b1", [bytes([a]) for a in range(256)])
    for i in range(0, len(two), 60): dec("b2_%d" % i, two[i:i + 60])
    lead = [0x41, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0x80]; co = [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff]
    three = [bytes([a, b, c]) for a in lead for b in co for c in co]; four = [bytes([a, b, c, d]) for a in (0xf0, 0xf1, 0xf3, 0xf4, 0xe1, 0xf8) for b in co for c in (0x7f, 0x80, 0xbf, 0xc0) for d in (0x7f, 0x80, 0xbf, 0xc0)]
    for i in range(0, len(three), 80): dec("b3_%d" % i, three[i:i + 80])
    for i in range(0, len(four), 80): dec("b4_%d" % i, four[i:i + 80])
    for i in range(ctx.n(25, 500)): dec("r%d" % i, [bytes(rng.choice(EDGE) if rng.random() < .6 else rng.randrange(256) for _ in range(rng.randrange(1, 30))) for _ in range(10)])
    def uni():
        r = rng.choice([rng.randrange(1, 0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x110000), rng.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff])])
        return chr(r) if r != 0xfffd else "x"
    for i in range(ctx.n(60, 900)):
        ts = []
        for _ in range(10):
            b = "".join(uni() for _ in range(rng.randrange(0, 12))).encode()
            if rng.random() < .4 and b:     # damage it
                k = rng.randrange(len(b)); b = rng.choice([b[:k], b[:k] + bytes([rng.randrange(1, 256)]) + b[k + 1:], b[:k] + bytes([rng.choice(EDGE[1:])]) + b[k:]])
            if b"\xef\xbf\xbd" in b: continue
            ts.append(b)
        segs.append(("text%d" % i, ["text " + vp.hx(t) for t in ts]))
    t3 = [bytes([a, b, c, 0x41]) for a in lead for b in co for c in co if a]
    for i in range(0, len(t3), 100): segs.append(("tm%d" % i, ["text " + vp.hx(t) for t in t3[i:i + 100]]))
    for i in range(ctx.n(20, 300)):
        o = []
        for _ in range(10):
            u = []
            for _ in range(rng.randrange(1, 7)):
                r = rng.random()
                if r < .5: u.append(rng.choice([rng.randrange(1, 0xd800), rng.randrange(0xe000, 0x10000), 0x7f, 0x80, 0x7ff, 0x800, 0xffff]))
                elif r < .9: u += [rng.randrange(0xd800, 0xdc00), rng.randrange(0xdc00, 0xe000)]
                else: u.append(rng.randrange(0xdc00, 0xe000))
            o.append("u2u " + " ".join(map(str, u)))
        segs.append(("u%d" % i, o))
    ctx.conform(ctx.build("utf.c"), "TraceUtf", segs)
