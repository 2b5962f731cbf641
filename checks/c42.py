import vp
TECH = "TLC: a register of bits beside the set of the bits that are on, with what shifting, smearing and swapping make of every word (MCBits); conformance: every explored and random histories, every 16-bit word, the neighbours of every power of two and random words on the real code, judged by TraceBits"
def word(r, n): return r.choice([0, (1 << n) - 1, 1, 1 << (n - 1), 1 << r.randrange(n), ((1 << n) - 1) ^ (1 << r.randrange(n)), r.getrandbits(n), r.getrandbits(n), r.getrandbits(n) & r.getrandbits(n) & r.getrandbits(n), (1 << r.randrange(n)) - 1])
def run(ctx):
    r = ctx.rng; inv = ["Words", "Counts", "Smears", "Swaps"]; segs = []
    ctx.mc("MCBits", vp.cfg({"Width": ctx.n(12, 14), "Depth": 4}, inv=inv, view="View"), emit=False, workers=8, timeout=850, tag="w12")
    ctx.mc("MCBits", vp.cfg({"Width": 16, "Depth": ctx.n(3, 5)}, inv=inv, view="View"), emit=False, workers=8, timeout=850, tag="w16")
    g = ctx.mc("MCBits", vp.cfg({"Width": 8, "Depth": 3}, inv=inv, aconst="Emit"), emit=True, workers=8, tag="gen")
    k = ctx.n(1500, 20000); g = r.sample(g, k) if len(g) > k else g
    for i, h in enumerate(g):
        sh = r.choice([0, 8, 16, 24, r.randrange(25)]); segs.append(("hist%d" % i, ["mask %d %d" % (o[1], sum(x << (p + sh) for p, x in enumerate(o[2]))) if o[0] == "mask" else "%s %d" % (o[0], o[1] + sh) for o in h]))
    for i in range(ctx.n(40, 600)): segs.append(("reg%d" % i, [r.choice(["set %d", "clear %d"]) % r.randrange(32) if r.random() < .8 else "mask %d %d" % (r.randrange(2), word(r, 32)) for _ in range(100)]))
    sw = ["swap 16 %d" % v for v in range(0, 65536, 1 if ctx.thorough else 17)] + ["swap %d %d" % (n, word(r, n)) for n in (16, 32, 64) for _ in range(ctx.n(400, 8000))] + ["count %d" % word(r, 64) for _ in range(ctx.n(500, 8000))]
    sw += ["swap %d %d" % (n, 255 << (8 * b)) for n in (16, 32, 64) for b in range(n // 8)] + ["count %d" % (1 << b) for b in range(64)]
    sw += ["pow2 %d" % v for v in sorted({x for p in range(31) for x in range((1 << p) - 3, (1 << p) + 4) if 1 <= x <= 1 << 30} | {r.randrange(1, 1 << r.randrange(1, 31)) for _ in range(500)})] + ["order"]
    q = lambda: r.choice([0, 1, -1, 2, 3, -7, r.randrange(-10, 11), r.randrange(-2**31 + 1, 2**31)])
    sw += ["cmp %d %d %d" % (a, b, c) for a in range(-2, 3) for b in range(-2, 3) for c in range(-2, 3)] + ["cmp %d %d %d" % (q(), q(), q()) for _ in range(ctx.n(600, 20000))]
    segs += [("words%d" % i, sw[i:i + 100]) for i in range(0, len(sw), 100)]
    r.shuffle(segs)
    ctx.conform_multi([(ctx.build("bits.c"), segs[::2]), (ctx.build("bits.c", name="bits_o2", asan=False, opt="-O2"), segs[1::2])], "TraceBits", timeout=60)
