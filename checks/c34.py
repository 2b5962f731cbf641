import vp
from fractions import Fraction
TECH = "TLC: the specified algebra obeys the laws of matrices, quaternions, rectangles on every small case (MCMath/LinAlg); conformance: those cases and random ones replayed into the C, C++-operator and no-math.h builds, every result judged by TraceMath"
def builds(ctx):
    o = [ctx.build("math.c", name="math_c"), ctx.build("math.c", name="math_cpp", cc="g++", flags=["-std=gnu++17", "-fpermissive", "-x", "c++"]), ctx.build("math.c", name="math_nm", flags=["-DZPL_NO_MATH_H"], asan=False, opt="-O2")]
    if ctx.thorough: o.append(ctx.build("math.c", name="math_clang", cc="clang", asan=False, opt="-O3"))
    return o
def model(ctx, kinds):
    out = {}
    for k in kinds: out[k] = [h[1] for h in ctx.mc("MCMath", vp.cfg({"Kind": '"%s"' % k, "Deep": "TRUE" if ctx.thorough else "FALSE", "Emit": "TRUE"}, spec="Spec", inv=["Law"]), emit=True, workers=8, tag=k, timeout=1500)]
    return out
def f(name, n, w, d, *a): return "f %s %d %d %d %s" % (name, n, w, d, " ".join(str(int(x)) for x in a))
def group(calls, size=12):   # calls by operation, a few to a segment
    by = {}
    for c in calls: t = c.split(); by.setdefault((t[1] if t[0] == "f" else t[0], t[2] if t[0] == "f" else "", t[3] if t[0] == "f" else ""), []).append(c)
    return [("%s.%s.%s.%d" % (k[0].strip("~"), k[1], k[2], i), v[i:i + size]) for k, v in sorted(by.items()) for i in range(0, len(v), size)]
def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    return sum((-1) ** k * m[0][k] * det([r[:k] + r[k + 1:] for r in m[1:]]) for k in range(n))
def cols(m): n = len(m); return [m[r][c] for c in range(n) for r in range(n)]
def fine(m):   # the inverse has entries in sixteenths, by a power of two determinant
    n = len(m); e = det(m)
    if e == 0 or abs(e) not in (1, 2, 4, 8, 16): return False
    return all((16 * det([[m[i][j] for j in range(n) if j != c] for i in range(n) if i != r])) % e == 0 for r in range(n) for c in range(n)) if n > 1 else True
def run(ctx):
    rng = ctx.rng; R = rng.randrange; bs = builds(ctx); M = model(ctx, ["m2", "m3", "m4", "q", "r", "b"])
    pick = lambda k, q, t: rng.sample(M[k], min(len(M[k]), ctx.n(q, t)))
    C = []; W = range
    for m, v in pick("m2", 250, 6561): C += [f("mmul", 2, R(4), 1, *m), f("mvec", 2, R(2), 1, *(m[:4] + v)), f("det", 2, 0, 1, *m[:4])]
    for m, n in pick("m3", 120, 6000): C += [f("mmul", 3, R(4), 1, *(m + n)), f("mvec", 3, R(2), 1, *(m + n[:3])), f("det", 3, 0, 1, *m)]
    for x, y in pick("m4", 80, 4000): C += [f("mmul", 4, R(4), 1, *(x + y)), f("mvec", 4, R(2), 1, *(x + y[:4]))]
    for p, q, v in pick("q", 120, 4000):
        C += [f("qmul", 4, R(3), 1, *(p + q)), f("qdot", 4, 0, 1, *(p + q))]
        if sum(map(abs, q)) in (1, 2, 4): C += [f("qdiv", 4, R(3), 1, *(p + q)), f("qinv", 4, 0, 1, *q)]
        if sum(map(abs, q)) in (1, 4): C.append(f("qmat", 4, 0, 1, *q))
    for r, s in pick("r", 400, 11664): C += [f("meet", 2, R(2), 1, *(r + s)), f("rhas", 2, R(2), 1, *(r + s[:2])), f("rhas", 2, R(2), 2, *([2 * x for x in r] + [R(-7, 12), R(-7, 12)]))]
    for b, s, k in pick("b", 300, 2880): C += [f(rng.choice(["cut", "get", "addside"]), s, 0, 1, *(b + [k])), f(rng.choice(["contract", "expand"]), 0, 0, 1, *(b + [k]))]
    def ints(n, s=9): return [rng.choice([0, 0, 1, -1, R(-s, s + 1), R(-s, s + 1)]) for _ in range(n)]
    def big(n): return [rng.choice([0, 1, -1, R(-3000, 3001)]) for _ in range(n)]
    for i in W(ctx.n(30, 700)):
        d = rng.choice([1, 1, 2, 4])
        for n in (2, 3, 4):
            a, b = ints(n), ints(n); s = R(-9, 10); C += [f("add", n, R(3), d, *(a + b)), f("sub", n, R(3), d, *(a + b)), f("mul", n, R(3), d, *(a + [s])), f("div", n, R(3), 1, *(a + [rng.choice([1, 2, 4, 8, -1, -2, -4])])),
                 f("dot", n, 0, d, *(a + b)), f("mag2", n, 0, d, *a), f("make", n, R(2), d, *a), f("lerp", n, R(2), 1, *(a + b + [R(-2, 4)])), f("add", n, R(3), 1, *(big(n) + big(n))), f("dot", n, 0, 1, *(big(n) + big(n)))]
        C += [f("zero", R(2, 5), 0, 1), f("cross", 2, 0, d, *ints(4)), f("cross", 3, R(3), d, *ints(6)), f("max", 2, 0, d, *ints(2)), f("max", 3, 0, d, *ints(3)), f("side", 2, 0, d, *ints(6)), f("aspect", 2, 0, 1, R(0, 9), rng.choice([0, 1, 2, 4, 8]))]
        for n in (2, 3): a, b = ints(n, 5), ints(n, 3); C += [f("reflect", n, 0, 1, *(a + b)), f("cslerp", n, R(2), 1, *(ints(4 * n, 5) + [R(-1, 4)]))]
        for n in (2, 3, 4):
            nn = n * n; a, b = ints(nn, 6), ints(nn, 6); C += [f("ident", n, R(2), 1), f("trans", n, R(2), d, *a), f("copy", n, 0, 1, *a), f("msquare", n, 0, d, *a), f("mmul", n, R(4), d, *(a + b)), f("mvec", n, R(2), d, *(a + ints(n)))]
            if n < 4: C.append(f("det", n, 0, 1, *a))
            for _ in range(40):
                m = [ints(n, 3) for _ in range(n)]
                if fine(m): C.append(f("inv", n, 0, 1, *cols(m))); break
            m = [[0] * n for _ in range(n)]      # a unimodular one
            for k in range(n): m[k][k] = 1
            for _ in range(8):
                p, q = rng.sample(range(n), 2); s = rng.choice([1, -1, 2])
                m[p] = [x + s * y for x, y in zip(m[p], m[q])]
            if rng.random() < .5: rng.shuffle(m)
            if rng.random() < .5: m[0] = [x * rng.choice([2]) for x in m[0]]
            if fine(m) and max(max(map(abs, r)) for r in m) < 40: C.append(f("inv", n, 0, 1, *cols(m)))
        C += [f("place", k, 0, d, *ints(3)) for k in W(3)] + [f("move", k, 0, 1, *(ints(16, 4) + ints(3, 4))) for k in W(3)]
        p, q = ints(4), ints(4)
        C += [f("qid", 4, 0, 1), f("qadd", 4, R(3), d, *(p + q)), f("qsub", 4, R(3), d, *(p + q)), f("qmul", 4, R(3), d, *(p + q)), f("qmulf", 4, R(2), d, *(p + [R(-5, 6)])), f("qdivf", 4, R(2), 1, *(p + [rng.choice([1, 2, 4, -2])])), f("qdot", 4, 0, d, *(p + q)), f("qconj", 4, 0, d, *p)]
        u = [rng.choice([1, -1]) for _ in range(4)]; e = [0] * 4; e[R(4)] = rng.choice([1, -1]); v = ints(3)
        for h, k in ((u, 2), (e, 1)): C += [f("qrot", 4, 0, k, *(h + [k * x for x in v])), f("qmat", 4, 0, k, *h), f("matq", 4, 0, k, *h), f("qdiv", 4, R(3), k, *([k * x for x in p] + h)), f("qinv", 4, 0, k, *h)]
        C += [f("plane", 3, 0, 1, *ints(7)), f("rect", 2, 0, d, *ints(4)), f("unrect", 2, 0, d, *ints(4)), f("rect", 3, 0, d, *ints(6)), f("unrect", 3, 0, d, *ints(6)), f("meet", 2, R(2), d, *ints(8)), f("rhas", 2, R(2), d, *ints(6))]
        for n in (2, 3): lo = ints(n, 3); hi = [x + R(0, 5) for x in lo]; C.append(f("ahas", n, 0, d, *(lo + hi + [x + R(-1, 6) for x in lo])))
        lo = ints(2, 6); b = [lo[0], lo[1], lo[0] + R(0, 12), lo[1] + R(0, 12)]
        C += [f(o, R(4), 0, d, *(b + [R(0, 14)])) for o in ("cut", "get", "addside")] + [f(o, 0, 0, d, *(b + [R(0, 9)])) for o in ("contract", "expand")]
        P = rng.choice([[1, 0, 0, 0, 0, 1, 0, 0, 0, 0, -1, -1, 0, 0, -2, 0], [2, 0, 0, 0, 0, 1, 0, 0, 0, 0, -3, -1, 0, 0, -4, 0], [1, 0, 0, 0, 0, 2, 0, 0, 0, 0, -1, 0, 0, 0, -3, 8]])
        K = cols([[1, 0, 0, R(-4, 5)], [0, 1, 0, R(-4, 5)], [0, 0, 1, R(-4, 5)], [0, 0, 0, 1]]) if rng.random() < .6 else cols([[0, 0, 1, R(-3, 4)], [0, 1, 0, R(-3, 4)], [-1, 0, 0, R(-3, 4)], [0, 0, 0, 1]])
        for _ in W(4): C.append(f("frustum", 3, 0, 1, *(P + K + [R(-9, 10), R(-9, 10), R(-14, 5)])))
        C += [f("fsphere", 3, 0, 1, *(P + K + [R(-9, 10), R(-9, 10), R(-14, 5), R(0, 6)])) for _ in W(2)]
        lo = [R(-9, 8), R(-9, 8), R(-14, 3)]; C.append(f("fbox", 3, 0, 1, *(P + K + lo + [x + R(1, 6) for x in lo])))
        for k in W(8) if i % 3 == 0 else ():     # a box over each corner of a box-shaped view: only that corner of the view is in it, or only one corner of the box in the view
            t = [R(-5, 6) for _ in W(3)]; e = [R(1, 3) for _ in W(3)]; mid = [(8 if k & 1 else -8) - t[0], (4 if k & 2 else -4) - t[1], (5 if k & 4 else -11) - t[2]]; hi = [x + R(1, 3) for x in mid]; low = [x - y for x, y in zip(mid, e)]
            if rng.random() < .5:     # small box: one corner inside
                C.append(f("fbox", 3, 0, 1, *([1, 0, 0, 0, 0, 2, 0, 0, 0, 0, -1, 0, 0, 0, -3, 8] + cols([[1, 0, 0, t[0]], [0, 1, 0, t[1]], [0, 0, 1, t[2]], [0, 0, 0, 1]]) + low + hi)))
            else: C.append(f("fbox", 3, 1, 1, *([1, 0, 0, 0, 0, 2, 0, 0, 0, 0, -1, 0, 0, 0, -3, 8] + cols([[1, 0, 0, t[0]], [0, 1, 0, t[1]], [0, 0, 1, t[2]], [0, 0, 0, 1]]) + [x + 1 for x in mid] + [x + 2 for x in hi])))
        # approximate ones
        for n in (2, 3, 4): C += [f("~mag", n, R(2), 1, *ints(n, 20)), f("~norm", n, R(2), 1, *[x or 1 for x in ints(n, 20)])]
        q = ints(4, 9); C += [f("~norm", 4, 2, 1, *(q if any(q) else [1, 0, 0, 0])), f("~norm", R(2, 5), 1, 1, 0, 0, 0, 0)]
        for n in (2, 3):
            I = [0] * n; I[R(n)] = rng.choice([5, -5]); N = [0] * n; N[R(n)] = rng.choice([5, -5]); C.append(f("~refract", n, 0, 5, *(I + N + [rng.choice([3, 4, 5, 10, 6])])))
        ax = [0] * 3; ax[R(3)] = rng.choice([1, -1, 2]); th = 15 * R(-24, 25)
        C += [f("~turn", 3, R(5), 1, *(ax + [th] + ints(3))), f("~turn", 3, R(5), 1, *([1, 1, 1, 120 * R(-3, 4)] + ints(3)))]
        ax = [0] * 3; ax[R(3)] = rng.choice([1, -1]); C.append(f("~axis", 4, R(2), 1, *(ax + [R(5, 355)])))
        e = [0] * 3; k = R(3); e[k] = R(-170, 171) if k != 1 else R(-80, 81); C.append(f("~euler", 4, 0, 1, *e))
        C.append(f("~eulerq", 4, 0, 1, *[15 * R(-12, 13) for _ in W(3)]))
        g = 15 * R(-10, 11); h = 30 * R(-5, 6); C += [f("~slerp", 0, R(3), 1, *(ax + [g, g + h, R(2)])), f("~slerp", 0, R(3), 2, *([2 * x for x in ax] + [2 * g, 2 * (g + h), 1])), f("~slerp", 1, 0, 2, *([2 * x for x in ax] + [2 * g, 2 * (g + h), 1])),
              f("~slerp", 0, 0, 3, *([3 * x for x in ax] + [3 * 15 * R(-8, 9)] * 2 + [R(1, 3)])), f("~squad", 4, R(3), 1, *(ax + [15 * R(-5, 6) for _ in W(4)] + [R(2)]))]
        eye = ints(3, 5); ctr = [x + y for x, y in zip(eye, rng.choice([[3, 0, 0], [0, 4, 0], [0, 0, -2], [1, 2, 2], [-2, 3, 6], [2, -1, 2]]))]; fw = [c - x for c, x in zip(ctr, eye)]
        while True:
            up = ints(3, 2); cr = [fw[1] * up[2] - fw[2] * up[1], fw[2] * up[0] - fw[0] * up[2], fw[0] * up[1] - fw[1] * up[0]]
            if any(cr): break
        C.append(f("~look", 3, R(2), 1, *(eye + ctr + up)))
        C += [f("~persp", 4, R(4), 1, rng.choice([30, 60, 90, 120]), R(1, 4), R(1, 5), R(6, 100))]
        l, b = R(-20, 20), R(-20, 20); ne = R(-5, 10); C.append(f("~ortho", 4, R(4), 1, l, l + R(1, 30), b, b + R(1, 30), ne, ne + R(1, 30)))
        if i % 2 == 0:
            for n in (2, 3, 4): nn = n * n; C += [f("madd", n, R(2), d, *ints(2 * nn)), f("msub", n, R(2), d, *ints(2 * nn)), f("mscale", n, R(2), d, *ints(nn + 1))]
        C += [f("unlerp", 1, 0, 1, R(-9, 10), *(lambda s, k: (s, s + k))(R(-9, 10), rng.choice([1, 2, 4, 8, -4]))), f("smooth", 1, 0, 1, *(lambda s, k: (s, s + k, s + R(0, abs(k) + 1) * (1 if k > 0 else -1)))(R(-9, 10), rng.choice([1, 2, -2]))), f("smoother", 1, 0, 1, *(lambda s: (s, s + 1, s + R(2)))(R(-9, 10))), f("lerp", 1, 0, 1, R(-99, 100), R(-99, 100), R(-2, 4))]
    cpp = ("madd", "msub", "mscale"); plain = [c for c in C if c.split()[1] not in cpp]; rng.shuffle(plain)
    parts = [plain[k::3] for k in range(3)] if not ctx.thorough else [plain[::2], plain[1::2], plain]
    jobs = [(bs[0], group(parts[0])), (bs[1], group(parts[1] + [c for c in C if c.split()[1] in cpp])), (bs[2], group(parts[2]))] + [(b, group(plain)) for b in bs[3:]]
    ctx.conform_multi(jobs, "TraceMath", timeout=60)
