import itertools, base64
import vp
TECH = "published definitions written in TLA+ (Hash.tla), model checked against check values and against each other, and used by TLC to judge every recorded call of the real code"
FNS = ["adler32", "crc32", "crc64", "fnv32", "fnv32a", "fnv64", "fnv64a", "murmur32", "murmur32s", "murmur64", "murmur64s"]
def run(ctx):
    rng = ctx.rng
    ctx.mc("MCHash", vp.cfg({"Bytes": "{0, 1, 128, 255}", "MaxLen": ctx.n(4, 6)}, spec="Spec", inv=["Residue", "TableIsDivision", "RoundTrip64"]), emit=False, workers=8)
    segs = []
    seeds = [0, 1, 0x9747b28c, 0xffffffff, 1 << 63, (1 << 64) - 1, 0x123456789abcdef0]
    def data(n):
        c = rng.random()
        return bytes([rng.choice([0, 255, 128, 127])]) * n if c < .2 else bytes(rng.choice([0, 1, 127, 128, 255]) for _ in range(n)) if c < .5 else rng.randbytes(n)
    for f in FNS:
        # every length through several block sizes, every single byte value, every position of one changed byte
        ls = [(data(n), s) for n in list(range(0, 42)) + [63, 64, 65, 127, 128, 129] for s in [rng.choice(seeds)]]
        ls += [(bytes([v]), 0) for v in (range(256) if ctx.thorough or f in ("crc32", "crc64") else rng.sample(range(256), 40))]
        ls += [(bytes(1 if k == p else 0 for k in range(24)), 1) for p in range(24)] + [(bytes(255 if k == p else 0 for k in range(13)), 1) for p in range(13)]
        ls += [(data(rng.randrange(0, ctx.n(60, 300))), rng.choice(seeds + [rng.getrandbits(64)])) for _ in range(ctx.n(20, 500))]
        rng.shuffle(ls)
        for k in range(0, len(ls), 25): segs.append(("%s_%d" % (f, k), ["hash %s %s %d %d" % (f, vp.hx(b), s, rng.choice([0, 0, 1, 2, 3, 5])) for b, s in ls[k:k + 25]]))
    # the recorded finding, judged against the definition alone (everywhere else the recorded deviation is let through, and nothing else)
    segs.append(("murmur64-tail", ["hash murmur64s x000102030405060708090a 0 0 strict"]))
    # crc rows: every index of the table is used with a non-trivial register
    for f in ("crc32", "crc64"): segs.append((f + "_rows", ["hash %s %s 0 0" % (f, vp.hx(bytes(rng.sample(range(256), 256)))) for _ in range(ctx.n(2, 10))]))
    # Adler-32 across its block length of 5552 bytes
    for i, n in enumerate([5551, 5552, 5553, 5559, 5560, 11104, 11105, 7000] + ([20000, 16656, 16657] if ctx.thorough else [])):
        segs.append(("adlerlong%d" % n, ["hash adler32 %s 0 0" % vp.hx(b) for b in ([b"\xff" * n] + ([rng.randbytes(n)] if i % 2 else []))]))
    # the sums at their largest when a run of the highest byte begins: nothing may be kept unreduced for longer than the type bears
    def brim(p):
        while True:
            d = [min(255, 65519 // p + 1)] * p; k = sum(d) - 65519
            for i in range(p):
                x = min(d[i], k) if k > 0 else 0
                x = min(x, 1 + k // max(1, p - i)); d[i] -= x; k -= x
            if k: d[-1] -= k
            while True:
                b = (p + sum((p - i) * v for i, v in enumerate(d))) % 65521; need = (65520 - b) % 65521
                if need == 0: break
                t = min(need, p - 1); i = rng.randrange(t, p)       # a unit moved t places forward adds t
                if d[i] > 0 and d[i - t] < 255: d[i] -= 1; d[i - t] += 1
            if min(d) >= 0 and max(d) < 256: return bytes(d)
    top = brim(600)
    for B in [5552, 5553, 5560, 5600, 5632, 5760, 6000, 6144]: segs.append(("adlerfull%d" % B, ["hash adler32 %s 0 0" % vp.hx(top + b"\xff" * B)]))
    for B in [5552, 5560, 5632, 6144]: segs.append(("adlertwo%d" % B, ["hash adler32 %s 0 0" % vp.hx(brim(B) + b"\xff" * B)]))
    alpha = [0, 1, 62, 63, 127, 128, 191, 192, 250, 251, 252, 255]
    short = [bytes(t) for n in range(0, 4) for t in itertools.product(alpha[::3] if n == 3 else alpha, repeat=n)]
    short += [rng.randbytes(rng.randrange(1, 60)) for _ in range(ctx.n(100, 2000))]
    for k in range(0, len(short), 40): segs.append(("enc%d" % k, ["enc " + vp.hx(b) for b in short[k:k + 40]] + ["dec %s %d" % (vp.hx(base64.b64encode(b)), rng.randrange(2)) for b in short[k:k + 40]]))
    # malformed text: wrong lengths, misplaced padding, foreign bytes
    for k in range(ctx.n(40, 600)):
        ls = []
        for _ in range(12):
            t = bytearray(base64.b64encode(rng.randbytes(rng.randrange(0, 10))))
            for _ in range(rng.choice([0, 1, 1, 2])):
                c = rng.randrange(4)
                if c == 0 and t: t[rng.randrange(len(t))] = rng.choice([61, 61, 43, 42, 44, 45, 47, 58, 64, 91, 96, 123, 0, 128, 255, rng.randrange(256)])
                if c == 1 and t: del t[rng.randrange(len(t))]
                if c == 2: t.insert(rng.randrange(len(t) + 1), rng.choice([61, 65, 10, 122]))
                if c == 3: t += b"="
            ls.append("dec %s %d" % (vp.hx(bytes(t)), rng.randrange(2)))
        segs.append(("bad%d" % k, ls))
    segs.append(("badfix", ["dec %s %d" % (vp.hx(t), z) for t in (b"", b"=", b"==", b"====", b"A===", b"AA==", b"AAA=", b"=AAA", b"A=AA", b"AA=A", b"AAAA====", b"AA==AAAA", b"AAA", b"AA", b"A") for z in (0, 1)]))
    ctx.conform(ctx.build("hash.c"), "TraceHash", segs)
