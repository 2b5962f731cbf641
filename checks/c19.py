"""C19: the sorting algorithm is model checked; recorded sorts, searches, reversals and shuffles must be what Sort.tla allows."""
import itertools, struct
import vp
TECH = "TLC model checking of the quick/insertion sort as a state machine (SortImpl.tla) + conformance: every recorded call of the real code must satisfy the relations of Sort.tla"
FMT = dict(u8="<B", u16="<H", u32="<I", u64="<Q", i16="<h", i32="<i", i64="<q", isize="<q", f32="<f", f64="<d")
def run(ctx):
    rng = ctx.rng
    mc = lambda ns, vals, t: vp.cfg({"Ns": ns, "Vals": vals, "Threshold": t}, spec="Spec", inv=["InBounds", "Correct"], props=["Ends"])
    ctx.mc("SortImpl", mc("{1, 2, 3, 4, 5, 6}", "{0, 1, 2, 3}", 3), emit=False, workers=4, tag="small")
    ctx.mc("SortImpl", mc("{9}" if not ctx.thorough else "{9, 10}", "{0, 1}" if not ctx.thorough else "{0, 1, 2}", 8), emit=False, workers=8, tag="real", timeout=1500)
    segs = []
    def enc(kind, v): return struct.pack(FMT[kind], v)
    def rnd(kind, mode):
        if kind in ("f32", "f64"):
            return rng.choice([0.0, -0.0, 1.0, -1.0, 1.5, float("inf"), float("-inf"), 1e-40, -1e-40, 3.25]) if mode == 0 else rng.uniform(-100, 100) if mode == 1 else float(rng.randrange(-3, 4))
        w = 8 * struct.calcsize(FMT[kind]); s = kind[0] == "i"
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if mode == 0: return rng.choice([lo, hi, 0, 1, hi - 1, lo + 1, hi // 2, lo // 2])
        if mode == 1: return rng.randint(lo, hi)
        if mode == 2: return rng.randrange(0, 4)
        return max(lo, min(hi, rng.choice([-1, 1] if s else [1]) * (1 << rng.randrange(0, w))))
    def arr(kind, n, pad, off):
        mode = rng.randrange(4); shape = rng.randrange(6)
        vs = [rnd(kind, mode) for _ in range(n)]
        if shape == 1: vs.sort()
        if shape == 2: vs.sort(reverse=True)
        if shape == 3: vs = vs[:n // 2] + vs[:n - n // 2][::-1] if n else vs
        if shape == 4 and n: vs.sort(); vs[rng.randrange(n)] = rnd(kind, mode)
        return vs
    def elems(kind, vs, sz, off):
        w = struct.calcsize(FMT[kind]); out = b""
        for v in vs: e = bytearray(rng.getrandbits(8) for _ in range(sz)); e[off:off + w] = enc(kind, v); out += bytes(e)
        return out
    # every 0/1/2 array up to the insertion-sort threshold and every 0/1 array just above it
    small = []
    for n in range(0, 7): small += [bytes(t) for t in itertools.product(range(3), repeat=n)]
    big = []
    for n in range(7, 12): big += [bytes(t) for t in itertools.product(range(2), repeat=n)]
    if not ctx.thorough: small = rng.sample(small, 500); big = rng.sample(big, 900)
    for k in range(0, len(small), 40): segs.append(("small%d" % k, ["sort u8 1 0 " + vp.hx(b) for b in small[k:k + 40]]))
    for k in range(0, len(big), 40): segs.append(("zo%d" % k, ["sort u8 1 0 " + vp.hx(b) for b in big[k:k + 40]]))
    for n in (9, 10, 12):
        ps = [bytes(rng.sample(range(n), n)) for _ in range(ctx.n(80, 2000))]
        segs.append(("perm%d" % n, ["sort u8 1 0 " + vp.hx(b) for b in ps]))
    for kind in ("u8", "i16", "i32", "i64", "isize", "f32", "f64"):
        w = struct.calcsize(FMT[kind])
        for r in range(ctx.n(6, 60)):
            ls = []
            for _ in range(8):
                off = rng.choice([0, 0, 1, 3, 8]); sz = off + w + rng.choice([0, 0, 1, 7, 16]); n = rng.choice([0, 1, 2, 7, 8, 9, 10, 16, 17, 33, 60] + ([120] if ctx.thorough else []))
                vs = arr(kind, n, 0, off); ls.append("sort %s %d %d %s" % (kind, sz, off, vp.hx(elems(kind, vs, sz, off))))
                vs.sort(); n = rng.choice([0, 1, 2, 3, 5, 8, 20]); vs = vs[:n]
                for key in [rnd(kind, rng.randrange(4)) for _ in range(2)] + ([rng.choice(vs), vs[0], vs[-1]] if vs else []):
                    ls.append("search %s %d %d %s %s" % (kind, sz, off, vp.hx(elems(kind, vs, sz, off)), vp.hx(elems(kind, [key], sz, off))))
            segs.append(("%s%d" % (kind, r), ls))
    def word(): return bytes(rng.choice(b"ab\x7f\x80\xffz") for _ in range(rng.randrange(0, 5)))
    for r in range(ctx.n(8, 80)):
        ls = []
        for _ in range(8):
            off = rng.choice([0, 8, 16]); sz = off + 8 + rng.choice([0, 8])
            ws = [word() for _ in range(rng.choice([0, 1, 2, 8, 9, 20, 40]))]; ls.append("sort str %d %d %s" % (sz, off, vp.hx(b"".join(x + b"\0" for x in ws))))
            ws.sort(); ls += ["search str %d %d %s %s" % (sz, off, vp.hx(b"".join(x + b"\0" for x in ws)), vp.hx(k)) for k in [word(), word()] + ws[:2]]
        segs.append(("str%d" % r, ls))
    for kind in ("u8", "u16", "u32", "u64"):
        w = struct.calcsize(FMT[kind])
        for r in range(ctx.n(4, 40)):
            segs.append(("radix_%s%d" % (kind, r), ["radix %s %d 0 %s" % (kind, w, vp.hx(b"".join(enc(kind, v) for v in arr(kind, rng.choice([0, 1, 2, 3, 10, 40, 90]), 0, 0)))) for _ in range(6)]))
        segs.append(("radixb_" + kind, ["radix %s %d 0 %s" % (kind, w, vp.hx(b"".join(enc(kind, rng.getrandbits(8) << (8 * b)) for _ in range(12)))) for b in range(w)]))
    for r in range(ctx.n(10, 60)):
        ls = []
        for _ in range(10):
            sz = rng.choice([1, 2, 3, 4, 8, 12, 16, 24]); n = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 20, 50])
            b = bytes((i + (0 if k else rng.randrange(256))) % 256 for i in range(n) for k in range(sz)); ls += ["reverse u8 %d 0 %s" % (sz, vp.hx(b)), "shuffle u8 %d 0 %s" % (sz, vp.hx(b))]
        segs.append(("mix%d" % r, ls))
    ctx.conform(ctx.build("sort.c"), "TraceSort", segs)
