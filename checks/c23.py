import vp
TECH = "TLC model checking of the argument state machine (Opts.tla/MCOpts.tla) + conformance: every explored argument list, and random ones, replayed through the real parser, with errors, values, screens and frees judged by the same machine"
def run(ctx):
    rng = ctx.rng
    cfg = lambda n, a=None: vp.cfg({"MaxArgs": n}, spec="Spec", inv=["Ok", "Mono"] if not a else ["Ok"], **({"aconst": a} if a else {}))
    ctx.mc("MCOpts", cfg(4 if ctx.thorough else 3), emit=False, workers=8, timeout=1500)
    h = ctx.mc("MCOpts", cfg(3, "Emit"), emit=True, workers=8, tag="gen")
    if not ctx.thorough: h = rng.sample(h, 900)
    x = lambda b: vp.hx(bytes(b))
    NONE = [0]
    def reg(os, pos):
        return ["add %s %s %s %d" % (x([] if o["n"] == NONE else o["n"]), x([] if o["ln"] == NONE else o["ln"]), x(o["d"]), o["t"]) for o in os] + ["pos " + x(os[k - 1]["ln"]) for k in pos]
    segs = []; cur = []
    for os, pos, args in h:
        cur += reg(os, pos) + ["compile " + " ".join(x(a) for a in args)]
        if len(cur) > 120: segs.append(("hist%d" % len(segs), cur)); cur = []
    segs.append(("hist%d" % len(segs), cur))
    words = ["verbose", "v", "out", "out-file", "out_file", "o", "n", "num", "x1", "level", "l", "a", "ab", "abc", "file", "f"]
    val = lambda: rng.choice(["0", "5", "-7", "123456", "1.5", "-2.25", "0.125", "text", "a=b", "x y", "", "7", "-3", "42", "3.5", "--", "=", "%s%d"])
    for k in range(ctx.n(120, 2500)):
        ls = []
        for _ in range(4):
            n = rng.choice([1, 2, 3, 4, 6, 9, 14]); names = rng.sample(words, min(n, len(words))); os = []
            for w in names:
                t = rng.choice([0, 0, 1, 2, 3]); long = rng.random() < .85
                sh = rng.choice([w[0], w, w[:2], ""]) if long else w
                if any(o["n"] == list(sh.encode()) for o in os): sh = ""
                os.append(dict(n=list(sh.encode()) or NONE, ln=list(w.encode()) if long else NONE, d=list(rng.choice([b"desc", b"", b"a %d b"])), t=t))
            if any(o["n"] == NONE and o["ln"] == NONE for o in os): continue
            cand = [i + 1 for i, o in enumerate(os) if o["ln"] != NONE]; pos = rng.sample(cand, min(len(cand), rng.choice([0, 0, 1, 2, 3])))
            args = []
            for _ in range(rng.randrange(0, 9)):
                o = rng.choice(os); c = rng.random(); v = val()
                nm = lambda: rng.choice([b"-" + bytes(o["n"])] * (o["n"] != NONE) + [b"--" + bytes(o["ln"])] * (o["ln"] != NONE)).decode()
                good = {0: v, 1: rng.choice(["1.5", "-2.25", "0.125", "7", "300.5"]), 3: rng.choice(["5", "-7", "123456", "0"]), 2: v}[o["t"]]
                if c < .3: args.append(nm() + "=" + good)
                elif c < .6: args += [nm()] + ([good] if o["t"] != 2 and rng.random() < .85 else [])
                elif c < .7: args.append(nm())
                elif c < .9: args.append(rng.choice(["", " "] * 1 + [""] * 3) + val())
                else: args.append(rng.choice(["--unknown", "-zz", "--unknown=3", "-", "--", "---x", "  -v", "--" + rng.choice(words)[:-1]]))
            early = rng.random() < .5                    # positionals declared before the rest of the options: entries move
            r = reg(os, [])
            if early and pos: m = max(pos); r = r[:m] + ["pos " + x(os[q - 1]["ln"]) for q in pos] + r[m:]
            else: r += ["pos " + x(os[q - 1]["ln"]) for q in pos]
            ls += r + ["compile " + " ".join(vp.hx(a.encode()) for a in args)]
        segs.append(("rand%d" % k, ls))
    ctx.conform(ctx.build("opts.c"), "TraceOpts", segs)
