import subprocess, vp
TECH = "TLC: the environment as a row of texts and loaded libraries as images, beside the map and the reference counts that describe them (MCHost); conformance: every explored and random histories on the real code - the real environment, real commands in a scratch folder, real libraries - judged by TraceHost"
def rs(r, n, lo=1): return bytes(r.choice([61, 65, 66, 32, 10, 255, 128, r.randrange(lo, 256)]) for _ in range(n))
def run(ctx):
    r = ctx.rng; inv = ["Agree"]; segs = []; ba = lambda s: vp.hx(bytes(s))
    def tr(o): return "%s %s" % (o[0], " ".join(ba(x) if isinstance(x, (list, tuple)) else str(x) for x in o[1:]))
    ctx.mc("MCHost", vp.cfg({"Depth": ctx.n(5, 6)}, spec="SpecE", inv=inv, view="View"), emit=False, workers=8, timeout=850, tag="env")
    ctx.mc("MCHost", vp.cfg({"Depth": ctx.n(9, 14)}, spec="SpecL", inv=inv, view="View"), emit=False, workers=8, timeout=850, tag="libs")
    for spec, d in (("SpecE", 3), ("SpecL", 5)):
        g = ctx.mc("MCHost", vp.cfg({"Depth": d}, spec=spec, inv=inv, aconst="Emit"), emit=True, workers=8, tag="gen" + spec)
        k = ctx.n(3000, 40000); g = r.sample(g, k) if len(g) > k else g
        for i in range(len(g)): segs.append(("%s%d" % (spec, i), [tr(o) for o in g[i]] + (["copies"] if spec == "SpecE" else [])))
    for i in range(ctx.n(120, 3000)):
        ls = []; ns = [rs(r, r.choice([0, 1, 1, 2, 3, 8, 40])).replace(b"\0", b"z") for _ in range(6)]; ns = [n for n in ns if n != b"PATH"]
        for _ in range(60):
            n = r.choice(ns); c = r.random()
            ls.append("set %s %s" % (vp.hx(n), vp.hx(rs(r, r.choice([0, 1, 2, 5, 30, 300])))) if c < .4 else "unset %s" % vp.hx(n) if c < .5 else "get %s" % vp.hx(n.replace(b"=", b"e")) if c < .95 else "copies")
        segs.append(("env%d" % i, ls + ["copies"]))
    for i in range(ctx.n(60, 1500)):
        ls = ["cores"]; refs = [0, 0]
        for _ in range(30):
            k = r.randrange(2); c = r.random()
            if c < .3 and refs[k] < 20: ls.append("load %d" % k); refs[k] += 1
            elif c < .4: ls.append("nolib")
            elif refs[k]:
                if c < .7: ls.append("call %d" % k)
                elif c < .8: ls.append("nosym %d %s" % (k, r.choice(["host_prev", "host_nex", "host_next_", "HOST_NEXT"])))
                else: ls.append("unload %d" % k); refs[k] -= 1
        segs.append(("lib%d" % i, ls))
    for i in range(ctx.n(60, 1000)):
        ls = []
        for _ in range(4):
            o = rs(r, r.choice([0, 1, 2, 3, 5, 17, 255, 256, 1000, r.randrange(3000)]), 0)
            n = len(o); ls.append("command %s %d %d" % (vp.hx(o), r.choice([0, 1, max(0, n - 1), n, n + 1, n + 40, r.randrange(n + 2)]), r.choice([0, 0, 1, 77])))
            ls.append("commandstr %s %d" % (vp.hx(o.replace(b"\0", b"q")), r.choice([0, 0, 1, 77])))
        segs.append(("cmd%d" % i, ls))
    big = rs(r, 70000 if not ctx.thorough else 300000)
    segs.append(("big", ["command %s %d 0" % (vp.hx(big), 3), "commandstr %s 0" % vp.hx(big[:20000])]))
    r.shuffle(segs); libs = []
    for k in (0, 1):
        so = "%s/libhost%d.so" % (ctx.work, k); subprocess.run(["gcc", "-shared", "-fPIC", "-DSTEP=%d" % (k + 1), "-o", so, vp.VERIF + "/harness/hostlib.c"], check=True); libs.append(so)
    ctx.conform_multi([(ctx.build("host.c", flags=["-ldl"]), segs)], "TraceHost", timeout=200, runjobs=6, args=libs)
