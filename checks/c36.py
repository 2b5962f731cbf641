import struct
import vp
from c34 import builds, model, f, group
TECH = "TLC: the specified rounding, remainder and half-float widening obey their defining laws (MCMath/Scalar, every half class); conformance: every 16-bit half and generated scalars replayed into the C, C++ and no-math.h builds, every result judged by TraceMath"
def run(ctx):
    rng = ctx.rng; R = rng.randrange; bs = builds(ctx); M = model(ctx, ["s", "h"]); C = []; T = ctx.n(1, 12)
    for x, y, d in rng.sample(M["s"], min(len(M["s"]), ctx.n(500, 10000))): C += [f(o, 1, w, d, x) for o in ("floor", "ceil", "round") for w in (0, 1) if rng.random() < .6 or d in (2, 4)] + ([f(o, 2, R(2), d, x, y) for o in ("rem", "mod")] if d != 3 else [])
    edge = [(16777215, 33554432), (-16777215, 33554432), (1, 33554432), (-1, 33554432), (-1, 1 << 29), (1, 1 << 29), (8388609, 1), (-8388609, 1), (8388607, 2), (-8388607, 2), (16777213, 2), (16777215, 1), (-16777215, 1), (4194305, 4), (4194307, 4), (-4194307, 4), (33554430, 1), (0, 1), (3, 2), (-3, 2), (5, 2), (-5, 2)]
    for x, d in edge: C += [f(o, 1, w, d, x) for o in ("floor", "ceil", "round") for w in (0, 1)]
    for _ in range(60 * T):
        d = rng.choice([1, 2, 4, 8, 16]); x = rng.choice([-1, 1]) * R(1 << R(1, 24)); C += [f(o, 1, R(2), d, x) for o in ("floor", "ceil", "round")]
        x, y = rng.choice([-1, 1]) * R(1 << R(1, 15)), rng.choice([-1, 1]) * R(1, 1 << R(1, 9)); C += [f(o, 2, w, d, x, y) for o in ("rem", "mod") for w in (0, 1)]
        x, y, z = (rng.choice([0, 1, -1, d, -d, R(-99, 100)]) for _ in range(3))
        C += [f("copysign", 2, R(2), d, x, y), f("sign", 1, R(2), d, x), f("sign0", 1, 0, d, x), f("abs", 1, R(2), d, x), f("clamp", 3, 0, d, x, min(y, z), max(y, z)), f("clamp01", 1, 0, d, x), f("min", R(2, 4), 0, d, x, y, z), f("max3", R(2, 4), 0, d, x, y, z), f("between", 3, R(2), d, x, y, z)]
        C += [f("~rad", 1, 0, 1, R(-720, 721)), f("~deg", 1, 0, 1, R(-720, 721)), f("~diff", 2, 0, 1, rng.choice([R(-720, 721), 90 * R(-8, 9)]), rng.choice([R(-720, 721), 90 * R(-8, 9)])), f("~sin", 1, 0, 2, 15 * R(-60, 61)), f("~tan", 1, 0, 2, 15 * R(-10, 11)),
              f("~asin", 1, 0, 1, R(-89, 90)), f("~acos", 1, 0, 1, R(1, 180)), f("~atan", 1, 0, 1, R(-85, 86)), f("~atan2", 2, 0, 1, rng.choice([R(-179, 180), 180, 90, -90, 0])), f("~sqrt", 1, 0, 1, R(0, 2000)), f("~rsqrt", 1, R(2), 1, R(1, 2000)), f("~hypot", 2, 0, 1, R(-30, 31), R(-30, 31)),
              f("~pow", 2, 0, 1, *rng.choice([(2, R(-9, 17)), (3, R(0, 9)), (-2, R(-5, 10)), (10, R(-3, 5)), (1, R(-9, 9)), (5, R(0, 7)), (-3, R(0, 7))])), f("~exp2", 1, 0, 1, R(-9, 13)), f("~exp2", 1, 1, 1, R(-1, 2)), f("~log2", 1, 0, 1, 1 << R(0, 16)), f("~explog", 1, 0, 1, R(1, 9))]
    H = [("half.%d" % a, ["half %d %d" % (a, a + 255)]) for a in range(0, 65536, 256)]
    B = []
    def fb(s, e, m): return (s << 31) | (e << 23) | (m & 0x7fffff)
    for _ in range(300 * T):
        s, e = R(2), rng.choice([R(100, 145), R(100, 145), R(256), 112, 113, 142, 143, 102, 101, 103, 0, 255])
        m = rng.choice([0, 1, 0x7fffff, 0x1000, 0xfff, 0x1001, 0x2000, 0x3000, 0x2fff, 0x3001, 0x7fe000, 0x7fefff, 0x7ff000, 0x7ff001, 0x7fffff - 0x1000, rng.getrandbits(23), rng.getrandbits(10) << 13, (rng.getrandbits(10) << 13) | 0x1000, (rng.getrandbits(10) << 13) | 0xfff, 1 << R(23), (1 << R(23)) - 1])
        B.append("tohalf %d" % fb(s, e, m))
    rng.shuffle(C); n = len(bs)
    jobs = [(b, group((C if ctx.thorough else C[k::n]) + (B if ctx.thorough else B[k::n]), 30) + H[k::1 if ctx.thorough else n]) for k, b in enumerate(bs)]
    ctx.conform_multi(jobs, "TraceMath", timeout=60)
