import vp
TECH = "TLC model checking of the query grammar (MCUri.tla: all short token sequences, encoded in every way) + conformance: texts from the model, random field lists, cuts and mutations are decoded, written and decoded again by the real code and judged by UriText.tla, which decodes every text itself"
def run(ctx):
    rng = ctx.rng
    ctx.mc("MCUri", vp.cfg({"MaxToks": ctx.n(4, 5)}, spec="Spec", inv=["Ok"]), emit=False, workers=8, timeout=1500)
    h = ctx.mc("MCUri", vp.cfg({"MaxToks": 4}, spec="Spec", aconst="Emit"), workers=8, tag="tokens", timeout=1500)
    toks = sorted({bytes(x[0]) for x in h}); toks = rng.sample(toks, min(len(toks), ctx.n(5000, 60000)))
    segs = []
    def put(name, ts, write=.6):
        for k in range(0, len(ts), 25):
            ls = []
            for t in ts[k:k + 25]: ls += ["parse %s" % vp.hx(t if isinstance(t, bytes) else t.encode("latin1"))] + (["write"] if rng.random() < write else [])
            segs.append(("%s%d" % (name, k), ls + ["free"]))
    put("tok", toks)
    words = ["a", "foo", "x1", "id", "A_b", "~", "-", "a.b", "%41", "%7a", "%C5%BD", "%26", "%3D", "%3d", "%25", "%20", "+", "a+b", "%2B", "%FF", "%80", "%0A", "%", "%%", "%4", "%G1", "%1G", "%+1", "%-1", "%0x", "a%", "%2", "\xc3\xa9", "a/b", "#", ":", "@", "!", "'", "(", ")", "*", ",", ";", "%s%n", "%d", "\"", "<>", "[0]", "__zpl_origin", "true", "%3F", "\\", "%25%32%36"]
    nums = ["0", "1", "-1", "42", "007", "1.5", "-0.25", ".5", "1e3", "2.5e2", "0x1F", "123456789012345678", "-99999999999999999", "12345678901234567890", "1.2.3.4", "12ab", "2020-01-01", "5.", "99.999999", "%31", "1%32", "+5", "1+2", "-", "1e", "0x", "3.14159265"]
    origins = ["", "", "http://a.b", "https://example.com/dir1/page2", "x", "a=b&c", "100%25", "%s%s%n", "a%20b", "a+b", "/", "#", "%", "\xc3\xa9", "o" * 60]
    def field():
        n = "".join(rng.choice(words) for _ in range(rng.choice([0, 1, 1, 1, 2])))
        if rng.random() < .25: return n
        c = rng.random(); v = rng.choice(nums) if c < .4 else "".join(rng.choice(words + nums) for _ in range(rng.choice([0, 1, 1, 2, 3]))) if c < .9 else "".join("%%%02X" % rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 5])))
        return n + "=" + v + ("=" + rng.choice(words) if rng.random() < .05 else "")
    def query(): return rng.choice(origins) + "?" + rng.choice(["&", "&", "?"]).join(field() for _ in range(rng.choice([0, 1, 2, 3, 6, 15])))
    qs = [rng.choice(["", "", "", " ", "\n"]) + query() + rng.choice(["", "", "", " ", "\n", "&"]) for _ in range(ctx.n(2500, 50000))]
    put("query", qs)
    put("cut", [q[:rng.randrange(len(q) + 1)] for q in qs[:ctx.n(800, 15000)]])
    def mut(t):
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.randrange(len(t) + 1); t = rng.choice([t[:i] + rng.choice(list("%%%&=?+ a1.") + ["%0", "%00"]) + t[i:], t[:i] + t[i + 1:], t[:i] + t[i:i + 5] + t[i:]])
        return t
    put("mut", [mut(rng.choice(qs)) for _ in range(ctx.n(1500, 40000))])
    put("byte", ["?k=%%%02X&%%%02x=1&z" % (b, b) for b in range(256)] + [b"?" + bytes([b]) + b"=" + bytes([b]) + b"&q" for b in range(1, 256)], 1)
    put("pct", ["?a=%s%s" % (x, y) for x in ["%", "%4", "%4g", "%g4", "x%", "%%41", "%4%31", "%-1", "% 1"] for y in ["", "&b=1", "&b", "?b=%41"]], 1)
    put("long", ["?a=" + "x" * 70000 + "&b=2", "?" + "n" * 66000 + "=1", "o" * 70000 + "?a=%41", "?a=" + "%41" * 3000 + "&" + "+" * 3000])
    names = [b"a", b"key", b"", b"a b", b"&", b"=", b"?", b"%", b"%41", b"+", b"\xc3\xa9", b"#/:@", b"\xff\x01\n", b"x" * 50]
    for k in range(ctx.n(300, 6000)):
        ls = ["init %s" % rng.choice(["-", "-"] + [vp.hx(o.encode("latin1")) for o in origins if o])]
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            n = vp.hx(rng.choice(names)); c = rng.random()
            ls.append("bare %s" % n if c < .2 else "int %s %d" % (n, rng.choice([0, 1, -1, 10**17, -10**17, 77])) if c < .35 else "flt %s %s" % (n, rng.choice(["0.5", "-3.25", "1234.5", "0.000125"])) if c < .45 else "str %s %s" % (n, rng.choice(["-"] + [vp.hx(x) for x in names] + [vp.hx(bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 3, 10])))) for _ in range(6)])))
        if ls[0] == "init -" and rng.random() < .3: ls.insert(rng.randrange(1, len(ls) + 1), "origin %s" % vp.hx(rng.choice(origins[2:]).encode("latin1")))
        segs.append(("built%d" % k, ls + ["fin", "write", "free"]))
    # the trees built without their layout information (ZPL_PARSER_DISABLE_ANALYSIS) keep the same promises
    lean = [("lean_" + n, s) for n, s in rng.sample(segs, min(len(segs), ctx.n(110, 4000)))]
    ctx.conform_multi([(ctx.build("uri.c"), segs), (ctx.build("uri.c", name="uri_lean", flags=["-DZPL_PARSER_DISABLE_ANALYSIS"]), lean)], "TraceUri")
