import re, vp, jsongen
TECH = "conformance: documents that were parsed (texts printed by MCJsonDoc.tla in every layout, random documents) or built with the typed setters are written in every style; JsonText.tla parses the written text itself and decides whether it denotes the same document, the real parser must agree, and a second writing must be identical"
def run(ctx):
    rng = ctx.rng
    d = ctx.mc("MCJsonDoc", vp.cfg({"Wide": "TRUE" if ctx.thorough else "FALSE"}, spec="Spec", inv=["Ok"], aconst="Emit"), workers=8, timeout=1500)
    docs = sorted({bytes(x[0]) for x in d}); docs = rng.sample(docs, min(len(docs), ctx.n(1600, 30000)))
    segs = []; inds = ["c", "0", "4", "c", "0", "2", "8", "-4"]
    def put(name, ts, per):
        for k in range(0, len(ts), 12): segs.append(("%s%d" % (name, k), [x for t in ts[k:k + 12] for x in ["parse %s" % vp.hx(t if isinstance(t, bytes) else t.encode("latin1"))] + ["write %s" % i for i in (rng.sample(inds, per) if per < 9 else inds)]] + ["free"]))
    put("doc", docs, 2)
    texts = []
    while len(texts) < ctx.n(700, 15000):
        t = jsongen.gen_text(rng, rng.choice([0, 1, 2, 2, 3]), safe=True)
        if len(t) < 350: texts.append(t)
    put("text", texts, 2)
    def lines():     # members ended by lines or bars, in every kind of container
        def val(d): 
            c = rng.random(); n = rng.choice([0, 1, 2, 3]); sep = rng.choice([",", ",", "\n"])
            if d and c < .35: return "[%s]" % ",".join(val(d - 1) for _ in range(n))
            if d and c < .6: return "{%s%s}" % (sep.join("%s%s%s" % ("pqr"[i], ":", val(d - 1)) for i in range(n)), "")
            return rng.choice(["1", "-2", "0.5", '"s"', "'q'", "true", "null"])
        return "".join("%s %s %s%s" % (n, rng.choice("=:"), val(2), rng.choice(["\n", "\n", ","])) for n in ["a", "b", "c", "d"][:rng.choice([2, 3, 4])])[:-1] + "\n"
    for k in range(ctx.n(180, 3000)):
        ls = []
        for t in (rng.sample(texts, 3) if k % 3 else [lines() for _ in range(3)]):
            ls += ["parse %s" % vp.hx(t.encode("latin1"))]
            for _ in range(3): ls += ["edit %d %d" % (rng.randrange(1 << 30), rng.choice([1, 2, 3, 6])), "write %s" % rng.choice(inds)]
        segs.append(("edit%d" % k, ls + ["free"]))
    nums = ["[%s]" % n for n in ["-0.5", "-.5", ".5", "-0.0", "0.0", "-0", "0x0", "0xfF", "1.5e3", "1.05e-3", "-0.25e2", "1e-3", ".5e3", "-.5e-2", "1.00e2", "1.e-2", "0.000001", "123456.654321", "-99.999999", "1e2", "5e-1", "00.50", "1.5e100", "1.5e-100", "0e5", "-0e-5", "0.05", "3.0", "10.10", ".032", "1.0e+5", "0.999999", "9223372036854775807", "-9223372036854775808", "0xffffffffffffffff", "2147483648.5", "999999999.5e1", "0.0e5", ".0", "-.0", "100000.5"]]
    put("num", nums, 9)
    strs = ['{"a":"%s"}' % s for s in ["", "\\\"", "\\\\", "\\\\\\\"", "a\\\\", "\\n", "\n", "'", "`", "\\`", "%d%s%n", "/*", "//", "\\u00e9", "x" * 300]] + ["{'a':'%s'}" % s for s in ['"', "\\'", '\\"', "\"\"", "\\\\"]] + ["[`%s`]" % s for s in ["", "\\`", "\"", "'", "\n\n", "\\\\", "${x}"]] + ['{"%s":1}' % s for s in ["", " ", "a b", "\\\"", "\\\\", "'", "a:b", "1"]] + ["{'%s':1}" % s for s in ["\\'", '"', "\\\\", ""]]
    put("str", strs, 9)
    put("long", ['{"%s":["%s"],b:`%s`}' % ("n" * a, "s" * b, "m" * c) for a, b, c in [(1, 70000, 1), (70000, 1, 1), (1, 1, 66000), (300, 65534, 65536)]], 1)
    # built with the typed setters
    S = [b"", b"a", b"a b", b'"', b"'", b"`", b"\\", b"a\\", b'\\"', b"\\\\", b"x\ny", b"\xc3\xa9", b"{}[],:=|", b"//", b"/* */", b"%s%d", b"true", b"12"]
    N = [b"a", b"b_", b"", b"a b", b'"', b"'", b"q\"q'", b"\xc3\xa9", b"1", b"true", b"//", b"a:b", b"x" * 40]
    for k in range(ctx.n(260, 6000)):
        ls = ["begin %s" % rng.choice(["obj", "obj", "arr"])]; stack = [ls[0][6:]]
        for _ in range(rng.choice([0, 1, 3, 6, 12])):
            n = vp.hx(rng.choice(N)) if stack[-1] == "obj" or rng.random() < .3 else "-"; c = rng.random()
            if c < .15 and len(stack) < 5: kind = rng.choice(["obj", "arr"]); ls.append("%s %s" % (kind, n)); stack.append(kind)
            elif c < .3 and len(stack) > 1: ls.append("end"); stack.pop()
            elif c < .55: ls.append("%s %s %s" % (rng.choice(["str", "str", "mstr"]), n, vp.hx(rng.choice(S))))
            elif c < .8: ls.append("int %s %d" % (n, rng.choice([0, 1, -1, 7, -2**63, 2**63 - 1, rng.randrange(-10**6, 10**6), rng.randrange(-2**63, 2**63)])))
            else: ls.append("flt %s %s" % (n, rng.choice(["0", "1", "-1", "0.5", "-0.5", "3.25", "1234.5", "-0.000125", "0.1", "99.999999", "123456789.5", "-7.000001", "1e15", "0.3333333333", "%d.%06d" % (rng.randrange(-999, 999), rng.randrange(10**6))])))
        segs.append(("built%d" % k, ls + ["fin"] + ["write %s" % i for i in rng.sample(inds, 3)] + ["free"]))
    # the trees built without their layout information (ZPL_PARSER_DISABLE_ANALYSIS): numbers are written with six decimals and
    # integers in base ten there, so the documents with exponents or fractions in their text are left out
    frac = re.compile(rb"\.\d|\d\.|\d[eE]")
    ok = [(n, s) for n, s in segs if not any(frac.search(bytes.fromhex(x.split()[1][1:] if x.split()[1][:1] == "x" else x.split()[1])) for x in s if x.startswith("parse ") and x.split()[1] != "-")]
    lean = [("lean_" + n, s) for n, s in rng.sample(ok, min(len(ok), ctx.n(60, 3000)))]
    ctx.conform_multi([(ctx.build("json.c"), segs), (ctx.build("json.c", name="json_lean", flags=["-DZPL_PARSER_DISABLE_ANALYSIS"]), lean)], "TraceJson")
