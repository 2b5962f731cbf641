import vp
from c29 import sched
TECH = "TLC: the compare-and-swap loops and the spin lock one memory access at a time, watched by a linearizability observer (AtomicsImpl/Atomics); conformance: sequential calls, concurrent histories under a controlled scheduler and on real threads, and hammering, of the x86, generic and C++ builds, judged by TraceAtomic"
M64 = (1 << 64) - 1
def mcs(ctx):
    out = []
    for kind, n, k in [("ops" if ctx.thorough else "opsq", 2, 2), ("lock", 2, 2), ("lock", 3, 1)] + ([("ops", 3, 1), ("lock", 3, 2)] if ctx.thorough else []):
        hs = ctx.mc("AtomicsImpl", vp.cfg({"Kind": '"%s"' % kind, "N": n, "Len3": k, "Broken": '"none"', "Emit": "TRUE"}, spec="Spec", inv=["NeverBad", "RealIsPossible", "RestOK"] + (["OneHolder"] if kind == "lock" else []), props=["Finishes"] if n == 2 else []), emit=True, workers=6, tag="%s%d%d" % (kind, n, k), timeout=1500)
        out.append((kind, [h[0] for h in hs]))
    return out
def num(w, v): return v & (0xffffffff if w == 32 else M64)
def lit(w, l):   # limbs of the model -> a word; all ones in the top limb stay all ones above it
    v = l[0] | (l[1] << 16)
    return num(w, v | (M64 ^ 0xffffffff if l[1] == 0xffff else 0))
def vals(rng, w):
    return rng.choice([0, 1, 2, num(w, -1), num(w, -2), 1 << 31, (1 << 31) - 1, num(w, 1 << 32), num(w, M64 >> 1), num(w, 1 << 63), 0xffffffff, num(w, 0x100000001), num(w, rng.getrandbits(64)), rng.getrandbits(16), num(w, rng.getrandbits(33))])
def run(ctx):
    rng = ctx.rng; models = mcs(ctx)
    ctl = [ctx.build_ctl("atomic.c", name="at_ctl", flags=["-DVP_CTL"]), ctx.build_ctl("atomic.c", name="at_ctlg", flags=["-DVP_CTL"], impl="ctl_generic.c")]
    real = [ctx.build("atomic.c", name="at_c", asan=False, opt="-O2"), ctx.build("atomic.c", name="at_g", flags=["-DVP_GENERIC"], asan=False, opt="-O2"),
            ctx.build("atomic.c", name="at_cpp", asan=False, opt="-O2", cc="g++", flags=["-std=gnu++17", "-fpermissive", "-x", "c++"]), ctx.build("atomic.c", name="at_0", asan=False, opt="-O0")]
    if ctx.thorough: real.append(ctx.build("atomic.c", name="at_clang", asan=False, opt="-O3", cc="clang"))
    def p(w, t, op, a, b): return "p %d %s %d %d" % (t, op, num(w, a), num(w, b))
    def fromh(kind, h, w):
        ls = ["cell %d %d" % (w, 0 if kind == "lock" else 1)]
        for t, pr in enumerate(h):
            for o in pr:
                ls.append(p(w, t, o["f"], lit(w, o["a"]), lit(w, o["b"])))
                if o["f"] in "kt": ls.append("p %d u 0 0" % t)
        return ls + ["go %d" % len(h)]
    cs, rs = [], []
    for kind, hs in models:
        hs = rng.sample(hs, min(len(hs), ctx.n(250, 100000)))
        for i, h in enumerate(hs):
            w = (32, 64, 65)[i % 3]
            for rep in range(ctx.n(1, 10)): cs.append(("%s%d.%d.%d" % (kind, len(h), i, rep), [sched(rng)] + fromh(kind, h, w)))
            if i % 4 == 0: rs.append(("r%s%d.%d" % (kind, len(h), i), fromh(kind, h, w)))
    for i in range(ctx.n(300, 6000)):    # longer random histories
        w = rng.choice([32, 64, 65]); n = rng.choice([2, 2, 3, 3, 4]); m = rng.randrange(2, 9 if n < 4 else 6); lock = rng.random() < .3; pool = [vals(rng, w) for _ in range(3)] + [1]
        ls = ["cell %d %d" % (w, 0 if lock else rng.choice(pool))]
        for t in range(n):
            for _ in range(m):
                if lock:
                    ls.append(p(w, t, rng.choice("kkt"), rng.choice([0, 1, 2, 5, M64 if w != 32 else 3]), 0) if rng.random() < .95 else p(w, t, "l", 0, 0)); ls.append("p %d u 0 0" % t)
                else: ls.append(p(w, t, rng.choice("lscccx++&|"), rng.choice(pool), rng.choice(pool)))
        ls.append("go %d" % n)
        cs.append(("rnd%d" % i, [sched(rng)] + ls))
        if i % 3 == 0: rs.append(("rrnd%d" % i, ls))
    qs = []
    for i in range(ctx.n(120, 2000)):    # one thread: every call's result and effect
        w = rng.choice([32, 64, 65]); v = vals(rng, w); ls = ["cell %d %d" % (w, v)]; last = v
        for _ in range(14):
            r = rng.random()
            if r < .12: ls += ["cell %d %d" % (w, rng.choice([0, 0, 1, 2, num(w, 1 << 32)])), rng.choice(["lock 0", "lock 3", "try"])] + (["lock 2", "try"] if rng.random() < .5 else []) + ["unlock"] * rng.choice([0, 1]) + [rng.choice(["try", "lock 1"])]; last = 0
            else:
                f = rng.choice("lscccx++&|"); a, b = vals(rng, w), vals(rng, w)
                if f == "c" and rng.random() < .7: a = last
                ls.append("do %s %d %d" % (f, a, b)); last = {"s": a, "x": a, "c": b, "+": num(w, last + a), "&": last & a, "|": last | a}.get(f, last)
        qs.append(("one%d" % i, ls))
    hs = []
    for i in range(ctx.n(1, 6)):
        for w in (32, 64, 65):
            for k, n, c in [("+", 4, 20000), ("c", 3, 8000), ("x", 4, 10000), ("|", 4, 25000), ("L", 3, 4000), ("L", 6, 500), ("T", 4, 5000)]:
                v0 = 0 if k in "LT" else vals(rng, w)
                if k == "|" and w == 32: n = 4
                hs.append(("ham%s%d.%d.%d" % ({"+": "add", "|": "bits"}.get(k, k), w, n, i), ["cell %d %d" % (w, v0 & ~0xffffffff if k == "|" else v0), "hammer %s %d %d %d" % (k, n, c, vals(rng, w) if k in "+c" else 0)]))
    jobs = [(ctl[j], cs[k::2]) for j in range(2) for k in range(2)] if ctx.thorough else [(ctl[j], cs[j::2]) for j in range(2)]
    jobs += [(b, qs[k::len(real)] if not ctx.thorough else qs) for k, b in enumerate(real)] + [(b, qs[::6]) for b in ctl]
    ctx.conform_multi(jobs, "TraceAtomic", timeout=120)
    ctx.conform_multi([(b, rs[k::len(real)] + hs) for k, b in enumerate(real)], "TraceAtomic", timeout=120)
