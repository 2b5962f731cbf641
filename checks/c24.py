import vp
TECH = "TLC model checking of the tree edits (Adt.tla/MCAdt.tla) + conformance: explored and random edit histories run on the real tree, whose whole state (order, names, values, parent links) is compared with the specification after every edit; lookups judged by Query"
def run(ctx):
    rng = ctx.rng
    cfg = lambda n, d, a=None, v="View": vp.cfg({"MaxNodes": n, "Depth": d}, spec="Spec", inv=["WellFormed", "Reach"], props=["Steps"], **({"view": v} if v else {}), **({"aconst": a} if a else {}))
    ctx.mc("MCAdt", cfg(5, 5) if not ctx.thorough else cfg(6, 7), emit=False, workers=8, timeout=1500)
    hs = ctx.mc("MCAdt", cfg(5, 4, "Emit"), emit=True, workers=8, tag="gen")
    hs = [h[0] for h in hs]
    if len(hs) > ctx.n(1500, 12000): hs = rng.sample(hs, ctx.n(1500, 12000))
    P = lambda p: ".".join(map(str, p)) or "-"
    X = lambda s: vp.hx(s.encode())
    segs = []; cur = []
    for h in hs:
        cur.append("new 2 -"); k = 0
        for e in h:
            if e[0] == "add":
                cur.append("add %s %d %d %s %d" % (P(e[1]), e[2], e[3], X(chr(97 + k)), k)); k += 1
            elif e[0] == "mv": cur.append("mv %s %s %d" % (P(e[1]), P(e[2]), e[3]))
            elif e[0] == "rm": cur.append("rm " + P(e[1]))
            else: cur.append("swap %s %s" % (P(e[1]), P(e[2])))
        cur.append("free")
        if len(cur) > 150: segs.append(("hist%d" % len(segs), cur)); cur = []
    if cur: segs.append(("hist%d" % len(segs), cur))
    names = ["a", "b", "c", "name", "val", "x1", ""]; texts = ["a", "foo", "12", "1.500000", "", "true", "-3"]
    nm = lambda: "-" if rng.random() < .06 else X(rng.choice(names))
    def what(flat=False):
        k = rng.choice([1, 2, 2, 3, 5, 6, 0] if not flat else [3, 5, 6, 3, 5, 6, 0, 1])
        return "%d %s %s" % (k, nm(), X(rng.choice(texts)) if k == 3 else rng.choice([0, 1, 7, 12, -3, 100000]) if k == 5 else rng.choice([0, 12, -3, 1, 801]) if k == 6 else "0")
    pth = lambda d=4: ".".join(str(rng.randrange(0, 30)) for _ in range(rng.randrange(1, d))) if rng.random() < .9 else "-"
    def seg_uri():
        c = rng.random()
        if c < .4: return rng.choice(names[:-1])
        if c < .65: return str(rng.choice([0, 0, 1, 1, 2, 3, 9]))
        if c < .85: return "[%s=%s]" % (rng.choice(names[:-1]), rng.choice(texts + ["0.125000", "7", "100.125000", "0"]))
        if c < .95: return "[%s]" % rng.choice(texts + ["7", "-0.375000"])
        return rng.choice(["zz", "1a", "a1", "00", "01"])
    def uri(): return rng.choice(["", "", "/"]) + "/".join(seg_uri() for _ in range(rng.randrange(1, 4))) + rng.choice(["", "", "", "/"])
    for k in range(ctx.n(130, 2500)):
        ls = ["new %d -" % rng.choice([1, 2, 2])]
        wide = k % 2; grow = rng.choice([.4, .6, .8])
        for _ in range(rng.randrange(10, 60 if not wide else 90)):
            r = rng.random(); top = wide and rng.random() < .6
            if r < grow: ls.append(("app %s %s" % ("-" if top else pth(), what(top and rng.random() < .7)) if rng.random() < .5 else "add %s %d %s" % ("-" if top else pth(), rng.randrange(60), what(top and rng.random() < .5))))
            elif r < grow + .05: ls.append("set %s %s" % (pth(), what()))
            elif r < grow + .1: ls.append("rm " + pth())
            elif r < grow + .18: ls.append("mv %s %s %d" % (pth(), pth(), rng.randrange(60)))
            elif r < grow + .2: ls.append("mva %s %s" % (pth(), pth()))
            elif r < grow + .22: ls.append("swap %s %s" % (pth(), pth()))
            elif r < grow + .23: ls.append("bad %s %s %d" % (pth(), pth(), rng.randrange(3)))
            elif r < grow + .25: ls.append("find %s %s %d" % (rng.choice(["-", pth()]), X(rng.choice(names)), rng.randrange(2)))
            else: ls.append("query %s %s" % (rng.choice(["-", pth()]), X(uri())))
        for _ in range(12): ls.append("query - " + X(uri()))
        ls += ["find - %s %d" % (X(n), d) for n in names for d in (0, 1)]
        segs.append(("rand%d" % k, ls + ["free"]))
    # field and value lookups over many records
    for k in range(ctx.n(40, 600)):
        n = rng.choice([1, 2, 3, 5, 9, 12, 20]); ls = ["new 1 -"]; vals = ["foo", "a", "12", "x"][:rng.randrange(1, 5)]; fl = ["a", "b", "id"]
        for i in range(n):
            r = rng.random()
            if r < .7:
                ls.append("app - 2 -")
                for f in fl:
                    if rng.random() < .7: ls.append("app %d %s" % (i, rng.choice(["3 %s %s" % (X(f), X(rng.choice(vals))), "5 %s %d" % (X(f), rng.choice([7, 12, -3])), "6 %s %d" % (X(f), rng.choice([12, 1, 0])), "2 %s 0" % X(f)])))
                if rng.random() < .3: ls += ["app %d 2 %s 0" % (i, X("sub")), "app %d.%d 5 %s %d" % (i, 9999, X("deep"), i)]
            else: ls.append("app - " + rng.choice(["3 - " + X(rng.choice(vals)), "5 - %d" % rng.choice([7, 12, 0]), "6 - 12", "1 - 0"]))
        every = vals + ["7", "12", "-3", "1.500000", "0.125000", "0"]
        qs = ["[%s=%s]" % (f, v) for f in fl for v in every] + ["[%s]" % v for v in every] + ["%d/%s" % (i, f) for i in range(n + 1) for f in fl] + ["[%s=%s]/%s" % (rng.choice(fl), v, rng.choice(fl)) for v in every] + ["%d/[%s=%s]/b" % (rng.randrange(n), rng.choice(fl), v) for v in every] + ["/%d/sub/deep" % i for i in range(n)]
        ls += ["query - " + X(q) for q in rng.sample(qs, min(len(qs), 45))] + ["find %d %s 1" % (i, X("deep")) for i in range(n)]
        segs.append(("rec%d" % k, ls + ["free"]))
    # names deep below any field
    for k in range(ctx.n(20, 300)):
        ls = ["new 2 -"]; n = rng.randrange(1, 12)
        for i in range(n): ls.append("app - %s %s 0" % (rng.choice("1225"), X("f%d" % i)))
        for i in range(n):
            for j in range(rng.randrange(0, 3)): ls += ["app %d %s %s 0" % (i, rng.choice("125"), X("g%d" % j)), "app %d.%d 5 %s %d" % (i, j, X("h%d" % rng.randrange(4)), i)]
        ls += ["find - %s %d" % (X(q), d) for d in (1, 0) for q in ["h0", "h1", "h2", "h3", "g0", "g1", "f0"]]
        segs.append(("deep%d" % k, ls + ["free"]))
    # the trees built without their layout information (ZPL_PARSER_DISABLE_ANALYSIS) keep the same promises
    lean = [("lean_" + n, s) for n, s in rng.sample(segs, min(len(segs), ctx.n(60, 2000)))]
    ctx.conform_multi([(ctx.build("adt.c"), segs), (ctx.build("adt.c", name="adt_lean", flags=["-DZPL_PARSER_DISABLE_ANALYSIS"]), lean)], "TraceAdt")
