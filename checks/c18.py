import vp
from vp import hx
def oct_(n, w): return (b"%o" % n).ljust(w, b"\0")
def hdr(name, size, typ=b"0", mode=None, sizef=None, sumf=None):
    h = bytearray(512); h[:len(name)] = name; h[100:108] = oct_(0o664, 8); h[124:136] = (sizef if sizef is not None else oct_(size, 12)).ljust(12, b"\0"); h[136:148] = oct_(1700000000, 12); h[156:157] = typ
    s = 256 + sum(h[:148]) + sum(h[156:])
    h[148:156] = (sumf if sumf is not None else b"%o" % s).ljust(8, b"\0"); return bytes(h)
def arch(es, end=1024): return b"".join(hdr(n, len(d), *x) + d + b"\0" * (-len(d) % 512) for n, d, *x in es) + b"\0" * end
def run(ctx):
    rng = ctx.rng
    H = ctx.mc("MCTar", vp.cfg(dict(MaxFiles=ctx.n(1, 2)), inv=["RoundTrip", "CutSeen", "FlipSeen", "Contained"], aconst="Emit"), workers=6, timeout=1500)
    pick = rng.sample(H, min(len(H), ctx.n(160, 3000)))
    segs = []
    for i, h in enumerate(pick): segs.append(("mc%d" % i, ["disk %d" % (i % 2), "wr %s %s" % (hx(b"x"), hx(b"keep")), "load " + hx(bytes(h["a"])), "unpack 0", "unpackdir " + hx(b"o")]))
    N = [b"a", b"b", b"d/a", b"d/b", b"d/e/f", b"q" * 98, b"q" * 99, b"r" * 40 + b"/" + b"s" * 50, b"..x", b"d/..y", b"sp ace", b"\xc3\xa9", b"twelve_bytes", b"eleven_byte", b"much_longer_than_eleven.txt"]
    bad = [b"../x", b"..", b"d/../../x", b"d/../x", b"../../../x", b"/x", b"//x", b"/../x", b"d/..", b"./../x", b"d//..//../x", b"a/", b"", b".", b"d/.", b"./d/./a", b"...", b"a/b/c", b"a"]
    by = lambda n: bytes(rng.randrange(256) for _ in range(n))
    size = lambda: rng.choice([0, 1, 5, 511, 512, 513, 1024, 4095, 4096, 4097]) if rng.random() < .35 else rng.randrange(0, 90)
    for i in range(ctx.n(70, 1500)):      # pack, unpack again
        names = rng.sample(N, rng.randrange(0, 5)); s = ["disk %d" % rng.randrange(2)]
        s += ["wr %s %s" % (hx(n), hx(by(size()))) for n in names]
        lst = list(names); rng.shuffle(lst)
        if rng.random() < .15 and lst: lst.append(rng.choice(lst))
        if rng.random() < .1: lst.insert(rng.randrange(len(lst) + 1), rng.choice([b"nope", b"t" * 100, b"u" * 150, b"d"]))
        lim = rng.choice([0, 100, 512, 700, 1500, 3000]) if rng.random() < .15 and s[0] == "disk 1" else -1
        s.append("pack %d " % lim + " ".join(hx(n) for n in lst))
        if lim < 0:
            s += ["unpack 0", "unpackdir " + hx(b"o")]
            if rng.random() < .4: s += ["unpack %d" % rng.randrange(1, 5), "cut %d" % rng.choice([512, 600, 1024, rng.randrange(5000)]), "unpack 0", "unpackdir " + hx(b"p")]
        segs.append(("pack%d" % i, s))
    for i in range(ctx.n(40, 800)):       # a directory
        s = ["disk %d" % rng.randrange(2)]
        for n in rng.sample([b"t/a", b"t/b", b"t/d/a", b"t/d/e/f", b"t/.h", b"t/d/..k", b"t/" + b"q" * 90, b"u/z", b"t/long name with spaces.txt"], rng.randrange(0, 7)): s.append("wr %s %s" % (hx(n), hx(by(size()))))
        s.append("dir " + hx(rng.choice([b"t/empty", b"t", b"t/d"])))
        s += ["packdir " + hx(b"t"), "unpack 0", "unpackdir " + hx(b"o/p"), "unpackdir " + hx(b"o/p")]
        segs.append(("dir%d" % i, s))
    for i in range(ctx.n(140, 3000)):     # archives nobody packed
        es = []
        for _ in range(rng.randrange(1, 4)):
            r = rng.random(); d = by(rng.choice([0, 1, 30, 512, 600]))
            n = rng.choice(bad if r < .6 else N)
            x = (rng.choice([b"0"] * 6 + [b"1", b"2", b"5", b"\0", b"x"]),)
            if rng.random() < .12: x += (None, rng.choice([b"-1", b"-1000", b"77777777777", b"777777777777", b"9", b"", b"  12", b"0000000001 ", b"00000000001", b"12x", b"-"]))
            es.append((n, d) + x)
        if rng.random() < .1: es[-1] = (b"w" * 100, d)
        a = bytearray(arch(es, rng.choice([1024, 1024, 512, 0, 1536])))
        if rng.random() < .3: a[rng.randrange(len(a))] ^= rng.choice([1, 0x80, 0xff, 0x30])
        if rng.random() < .3: a = a[:rng.choice([rng.randrange(len(a) + 1), rng.randrange(len(a) // 512 + 1) * 512])]
        dest = rng.choice([b"o", b"o/", b"e/e/o", b"e/e/o", b"d"])
        segs.append(("bad%d" % i, ["disk %d" % rng.randrange(2), "wr %s %s" % (hx(b"x"), hx(b"keep")), "wr %s %s" % (hx(b"e/x"), hx(b"k2")), "load " + hx(bytes(a)), "unpack %d" % rng.choice([0, 0, 1, 2]), "unpackdir " + hx(dest), "unpack 0"]))
    segs.append(("abs", ["loadabs esc", "unpackdir " + hx(b"o"), "unpackdir x"]))
    segs.append(("empty", ["load x", "unpack 0", "unpackdir " + hx(b"o"), "pack -1", "unpack 0"]))
    ctx.conform(ctx.build("tar.c"), "TraceTar", segs, timeout=40)
