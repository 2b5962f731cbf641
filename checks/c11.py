import vp
def calls(rng, s, more=True):
    x = vp.hx(s); o = ["one " + x, "lines %s 0" % x, "lines %s 1" % x]
    cs = [34, 97, 92, 0, 32, 255, 10] if more else rng.sample([34, 97, 92, 0, 32, 255, 10], 3)
    o += ["withc %s %d" % (x, c) for c in cs]
    o += ["withn %s %d" % (x, n) for n in ({0, 1, len(s), len(s) + 1, len(s) + 5, max(0, len(s) - 1)} if more else {rng.randrange(len(s) + 3)})]
    k = rng.randrange(len(s) + 1); ts = [s[:k], s[k:], bytes(rng.choice(s or b"a") for _ in range(rng.randrange(4))), s[:k] + bytes([rng.randrange(1, 256)]) + s[k + 1:]]
    for t in (ts if more else ts[:2]):
        o += ["two %s %s %d" % (x, vp.hx(t), rng.randrange(3)), "ncmp %s %s %d" % (x, vp.hx(t), rng.randrange(len(s) + 2))]
    for d in ([b'"', b" \n", b"", b"a\\"] if more else [b" \n"]):
        o += ["tok %s %s" % (x, vp.hx(d)), "ntok %s %s %d" % (x, vp.hx(d), rng.randrange(1, len(s) + 3))]
    return o
def run(ctx):
    rng = ctx.rng
    h = ctx.mc("MCText", vp.cfg(dict(Max=ctx.n(5, 6)), inv=["Laws"], aconst="Emit", const="Bound"))
    texts = [bytes(t[0]) for t in h]; keep = [t for t in texts if len(t) <= 2] + rng.sample([t for t in texts if len(t) > 2], ctx.n(450, 12000))
    lines = [("char", ["char 0 256"])]
    for i in range(0, len(keep), 8): lines.append(("mc%d" % i, sum((calls(rng, t, len(t) <= 2) for t in keep[i:i + 8]), [])))
    for i in range(ctx.n(120, 2500)):
        al = rng.choice([b'ab"\\ \r\n', b"ab \n", bytes(range(1, 256)), b"aAzZ09@[`{/:", b'\\"n/'])
        lines.append(("rnd%d" % i, sum((calls(rng, bytes(rng.choice(al) for _ in range(rng.choice([3, 9, 17, 40])))) for _ in range(2)), [])))
    ctx.conform(ctx.build("text.c"), "TraceText", lines)
