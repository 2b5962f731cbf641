import struct
import vp
TECH = "TLC model checking of the permutation construction at a small word size (MCRandom.tla) + conformance: recorded calls must behave as one deterministic machine and stay in their ranges (Random.tla)"
def run(ctx):
    rng = ctx.rng
    for p, w, x, r in [(11, 16, 5, 2)] + ([(11, 16, 9, 3), (59, 64, 37, 2)] if ctx.thorough else []):
        ctx.mc("MCRandom", vp.cfg(dict(P=p, W=w, XorC=x, Rounds=r), spec="Spec", inv=["NeverRepeats"]), emit=False, workers=8, tag="w%d_%d" % (w, r))
    I = lambda v: vp.hx(struct.pack("<q", v)); F = lambda v: vp.hx(struct.pack("<d", v))
    MIN, MAX = -(1 << 63), (1 << 63) - 1
    def st(): return vp.hx(bytes(rng.choice([0, 255, rng.getrandbits(8)]) for _ in range(36)) if rng.random() < .5 else rng.randbytes(36))
    def irange():
        c = rng.random()
        if c < .3: lo = rng.randrange(-50, 50); return lo, lo + rng.randrange(0, 8)
        if c < .5: return rng.choice([(MIN, MAX), (MIN, MIN), (MAX, MAX), (MIN, MIN + 1), (MAX - 1, MAX), (0, MAX), (MIN, 0), (MIN, -1), (-1, MAX), (MIN + 1, MAX), (MIN, MAX - 1), (0, 0), (-1, -1)])
        a, b = sorted([rng.choice([-1, 1]) * rng.getrandbits(rng.randrange(1, 64)) for _ in range(2)]); return a, b
    def frange():
        if rng.random() < .3: return rng.choice([(-1.7e308, 1.7e308), (0.0, 0.0), (-1.0, 1.0), (0.1, 0.3), (1e-300, 2e-300), (-1e-310, 1e-310), (1e300, 1e308), (-5.0, -4.999999999999), (0.0, 1.0), (1e15, 1e15 + .125)])
        a, b = sorted([rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 20) for _ in range(2)]); return a, b
    segs = []
    plain = ["u32", "unique", "u64", "gisize"]
    for k in range(ctx.n(60, 600)):
        # two generators with the same state, driven by the same calls, interleaved with others
        ls = ["set 0 " + st(), "copy 1 0", "set 2 " + st(), "init 3"] if k % 5 else ["init 0", "copy 1 0", "init 2", "init 3"]
        calls = []
        for _ in range(12):
            c = rng.random()
            if c < .5: calls.append(rng.choice(plain))
            elif c < .8: calls.append("%s %s %s" % ((rng.choice(["i64", "isize"]),) + tuple(map(I, irange()))))
            else: calls.append("f64 %s %s" % tuple(map(F, frange())))
        pos = [0, 0]
        while min(pos) < len(calls):
            g = rng.randrange(4)
            if g < 2:
                if pos[g] < len(calls): ls.append("gen %d %s" % (g, calls[pos[g]])); pos[g] += 1
            else: ls.append("gen %d %s" % (g, rng.choice(calls)))
        segs.append(("twin%d" % k, ls))
    for k in range(ctx.n(20, 200)):
        ls = ["init 0" if k % 3 == 0 else "set 0 " + st()]
        for kind in ("i64", "isize"):
            for w in (1, 2, 3, rng.randrange(4, 9)):
                lo = rng.choice([0, -w + 1, MIN, MAX - w + 1, rng.randrange(-10**6, 10**6), -3]); ls.append("many 0 %s %d %d %s %s" % (kind, 330, w, I(lo), I(lo + w - 1)))
        ls += ["many 0 %s 150 0" % g for g in plain]
        ls += ["many 0 f64 60 0 %s %s" % (F(a), F(b)) for a, b in [frange() for _ in range(4)] if a + abs(a) * 1e-6 < b]
        for _ in range(4): lo, hi = irange(); ls.append("many 0 %s 60 %d %s %s" % (rng.choice(["i64", "isize"]), 0 if hi - lo > 1 << 40 else -1, I(lo), I(hi)))
        segs.append(("many%d" % k, ls))
    segs.append(("unique", ["init 0", "unique 0 %d" % ctx.n(1 << 22, 1 << 25)] + ["set 0 " + st() + "\nunique 0 %d" % (1 << 20) for _ in range(ctx.n(3, 12))]))
    if ctx.thorough: segs.append(("uniqueall", ["init 0", "unique 0 %d" % (1 << 32)]))
    ctx.conform(ctx.build("random.c", opt="-O2"), "TraceRandom", segs, timeout=600)
