import vp
def txt(rng, m=12, al=b"ab \t\n,xyz0"):
    return vp.hx(bytes(rng.choice(al) for _ in range(rng.randrange(m))))
def gen(rng, n):
    segs = []
    for k in range(n):
        s = [rng.choice(["make 0 " + txt(rng), "makelen 0 " + txt(rng), "reserve 0 %d" % rng.randrange(40), "makenull 0 %d" % rng.randrange(9), "join 0 " + " ".join(txt(rng, 5) for _ in range(rng.randrange(1, 6))), "sprintf 0 %s %d" % (txt(rng, 40), rng.randrange(-9999, 99999)), "sprintfbuf 0 %s %d" % (txt(rng), rng.randrange(-99, 99))])]
        s += ["dup 0 1"] if rng.random() < .7 else ["make 1 " + txt(rng)]
        for _ in range(rng.randrange(5, 30)):
            a = rng.randrange(2); r = rng.random()
            if r < .14: s.append("appendc %d %s" % (a, txt(rng, rng.choice([3, 12, 60]))))
            elif r < .26: s.append("appendlen %d %s" % (a, vp.hx(bytes(rng.randrange(256) for _ in range(rng.randrange(20))))))
            elif r < .34: s.append("append %d %d" % (a, 1 - a))
            elif r < .38: s.append("appendself %d" % a)
            elif r < .44: s.append("appendfmt %d %s %d" % (a, txt(rng), rng.randrange(-99999, 99999)))
            elif r < .52: s.append("rune %d %d" % (a, rng.choice([-1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd800, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, rng.randrange(0x110000)])))
            elif r < .64: s.append("set %d %s" % (a, txt(rng, rng.choice([1, 6, 30]))))
            elif r < .68: s.append("clear %d" % a)
            elif r < .78: s.append("trim %d %s" % (a, txt(rng, 5)))
            elif r < .86: s.append("trimspace %d" % a)
            elif r < .91: s.append("space %d %d" % (a, rng.randrange(40)))
            elif r < .95: s.append("dup %d %d" % (a, 1 - a)); s.append("equal 0 1"); s.append("appendc %d %s" % (a, txt(rng, 3)))
            s.append("equal 0 1")
        segs.append(("rnd%d" % k, s))
    return segs
def near(rng, n):     # two texts that differ in one byte, in length, or not at all, with any bytes inside
    segs = []
    for k in range(n):
        s = []
        for _ in range(8):
            b = bytes(rng.choice([0, 0, 97, 98, 128, 255]) for _ in range(rng.choice([1, 2, 5, 9, 20]))); i = rng.randrange(len(b)); c = rng.random()
            o = b if c < .2 else b[:i] + bytes([b[i] ^ rng.choice([1, 32, 128])]) + b[i + 1:] if c < .8 else b[:-1] if c < .9 else b + b"\0"
            s += ["makelen 0 " + vp.hx(b), "makelen 1 " + vp.hx(o), "equal 0 1", "equal 1 0"]
        segs.append(("near%d" % k, s))
    return segs
def run(ctx):
    h = ctx.mc("MCStr", vp.cfg(dict(MaxOps=ctx.n(4, 6)), inv=["StrOK", "TrimIdem"], aconst="Emit", const="Bound"))
    ctx.conform(ctx.build("str.c"), "TraceStr", vp.hist_segments(h, maxn=ctx.n(3500, 60000), rng=ctx.rng) + gen(ctx.rng, ctx.n(300, 5000)) + near(ctx.rng, ctx.n(30, 500)))
