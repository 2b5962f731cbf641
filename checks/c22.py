import itertools, json
import vp
TECH = "TLC model checking of the ordered matching semantics against the language semantics for every short pattern (MCRegex.tla) + conformance: the real engine's verdicts, ends and captures are judged by Regex.tla, which parses the pattern text itself"
def run(ctx):
    rng = ctx.rng
    mcfg = lambda chars, mp, mt, emit="": vp.cfg({"Chars": "{%s}" % ", ".join(str(ord(c)) for c in chars), "MaxPat": mp, "MaxText": mt}, spec="Spec", inv=["Ok"], **({"aconst": emit} if emit else {}))
    ctx.mc("MCRegex", mcfg("ab*+?|().", 4, 2) if not ctx.thorough else mcfg("ab*+?|().^$[]", 5, 3), emit=False, workers=8, timeout=1500)
    h = ctx.mc("MCRegex", mcfg("a*+?|()[]^$.\\b", 3, 0, "Emit"), emit=True, workers=8, tag="gen")
    texts = [bytes(t) for n in range(0, 4) for t in itertools.product(b"ab", repeat=n)]
    pats = {""} | {bytes(x[0]).decode("latin1") for x in h}
    pats |= {q[:k] for q in list(pats) for k in (1, 2)}
    pats = sorted(pats); keep = lambda q: len(q) - len(q.rstrip("\\")) in (0, 2)    # a dangling backslash means nothing in particular
    pats = [q for q in pats if keep(q)]
    if not ctx.thorough: pats = rng.sample(pats, 1100)
    segs = []
    def line(p, ts, c=0, nc=3): return "re %d %s %d %s" % (c, vp.hx(p if isinstance(p, bytes) else p.encode("latin1")), nc, " ".join(vp.hx(t) for t in ts))
    for k in range(0, len(pats), 20): segs.append(("short%d" % k, [line(p, rng.sample(texts, ctx.n(6, 15)), nc=rng.choice([3, 3, 1])) for p in pats[k:k + 20]]))
    # grammar-driven patterns, mostly valid
    def atom():
        c = rng.random()
        if c < .45: return rng.choice("aabc")
        if c < .55: return "."
        if c < .75: return "[" + rng.choice(["", "", "^"]) + "".join(rng.choice(["a", "b", "c", "\\d", "\\w", "\\n", "\\]", "-", "\\W", "\\S", "\\00", "\\61", "\\0", "^"]) for _ in range(rng.randrange(0, 4))) + "]"
        return rng.choice(["\\d", "\\D", "\\s", "\\S", "\\a", "\\l", "\\u", "\\w", "\\W", "\\x", "\\p", "\\t", "\\n", "\\r", "\\v", "\\f", "\\0", "\\61", "\\62", "\\6a", "\\00", "\\ff", "\\.", "\\*", "\\\\", "\\(", "\\]", "\\g"])
    def seq(d):
        out = ""
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            c = rng.random()
            if c < .12: out += rng.choice("^$")
            elif c < .3 and d < 3: out += "(" + alt(d + 1) + ")"
            else: out += atom() + rng.choice(["", "", "", "*", "+", "?", "*?", "+?"])
        return out
    def alt(d): return "|".join(seq(d) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))) + ("|" if rng.random() < .04 else "")
    def text(): return bytes(rng.choice(b"aaabbbc1_ \n\x00\xff]*.A") if rng.random() < .4 else rng.choice(b"ab") for _ in range(rng.randrange(0, 7)))
    def mutate(p):
        p = list(p)
        for _ in range(rng.randrange(1, 3)):
            c = rng.randrange(3); i = rng.randrange(len(p) + 1)
            if c == 0 and p: del p[min(i, len(p) - 1)]
            elif c == 1: p.insert(i, rng.choice("()[]*+?|^$\\a"))
            elif p: p[min(i, len(p) - 1)] = rng.choice("()[]*+?|a")
        return "".join(p)
    for k in range(ctx.n(140, 2500)):
        ls = []
        while len(ls) < 8:
            p = alt(0); p = mutate(p) if rng.random() < .25 else p
            if len(p) > 26 or not keep(p) or p.count("*") + p.count("+") > 4: continue
            ts = [text() for _ in range(6)]
            c = rng.choice([0, 0, 0, 5 * len(p) + 8, rng.randrange(1, 40)]); ls.append(line(p, ts, c, rng.choice([0, 1, 2, 4])))
        segs.append(("rand%d" % k, ls))
    # the whole match seen through an outer group
    for k in range(ctx.n(40, 500)):
        ls = []
        while len(ls) < 8:
            p = alt(1)
            if len(p) <= 22 and keep(p) and p.count("*") + p.count("+") <= 4: ls.append(line("(" + p + ")", [text() for _ in range(6)]))
        segs.append(("outer%d" % k, ls))
    # every byte against every class, alone and in a set
    allb = bytes(range(256))
    for e in "tnrfv0sSdDaluwWxp.]g":
        segs.append(("class_%d" % ord(e), [line("(\\%s)" % e, [bytes([b]) for b in range(256)][(0 if h_ == 0 else 128):(128 if h_ == 0 else 256)], nc=0) for h_ in (0, 1)] + [line("[\\%s]" % e, [bytes([b]) for b in range(0, 256, 3)], nc=0), line("[^\\%s]" % e, [bytes([b]) for b in range(1, 256, 3)], nc=0)]))
    A, B = "a" * 100, "b" * 100
    long = [("a" * 127, [b"a" * 126, b"a" * 127]), ("a" * 128, [b"a" * 129]), ("a" * 200, [b"a" * 200]), ("a" * 128 + "*", [b"a" * 130]), ("(" + A + "|" + B + ")c", [b"b" * 100 + b"c"]),
            ("x" * 130 + "|" + "y" * 20, [b"y" * 20, b"x" * 129]), ("a" * 60 + "|" + "b" * 60 + "|" + "c" * 70 + "|d", [b"c" * 70, b"d"]), ("[" + "ab" * 70 + "]c", [b"ac", b"bd"]), ("[" + "".join("\\%02x" % i for i in range(1, 70)) + "]", [b"A", b"\xf0"])]
    # programs longer than the room first reserved for them
    long += [("(\\d)" * 48, [b"8" * 48, b"8" * 47 + b"x"]), ("(\\l)" * 50 + "b?$", [b"x" * 50, b"x" * 50 + b"c"])]
    for k, (p, ts) in enumerate(long): segs.append(("long%d" % k, [line(p, ts, nc=1)]))
    ctx.conform(ctx.build("regex.c"), "TraceRegex", segs)
