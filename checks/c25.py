import vp, jsongen
TECH = "TLC model checking of the dialect's grammar (MCJson.tla: all short token sequences; MCJsonDoc.tla: all small documents in all layouts) + conformance: texts from the models, random documents and layouts, truncations and mutations are parsed by the real parser and judged by JsonText.tla, which parses the text itself"
def run(ctx):
    rng = ctx.rng
    ctx.mc("MCJson", vp.cfg({"MaxToks": ctx.n(3, 5)}, spec="Spec", inv=["Ok"]), emit=False, workers=8, timeout=1500)
    h = ctx.mc("MCJson", vp.cfg({"MaxToks": 4}, spec="Spec", aconst="Emit"), workers=8, tag="tokens", timeout=1500)
    d = ctx.mc("MCJsonDoc", vp.cfg({"Wide": "TRUE" if ctx.thorough else "FALSE"}, spec="Spec", inv=["Ok"], aconst="Emit"), workers=8, timeout=1500)
    toks = sorted({bytes(x[0]) for x in h}); docs = sorted({bytes(x[0]) for x in d})
    toks = rng.sample(toks, min(len(toks), ctx.n(3000, 50000))); docs = rng.sample(docs, min(len(docs), ctx.n(1800, 30000)))
    segs = []
    def put(name, ts, op="parse"):
        for k in range(0, len(ts), 25): segs.append(("%s%d" % (name, k), ["%s %s" % (op, vp.hx(t if isinstance(t, bytes) else t.encode("latin1"))) for t in ts[k:k + 25]] + ["free"]))
    put("tok", toks); put("doc", docs)
    texts = []
    while len(texts) < ctx.n(900, 20000):
        t = jsongen.gen_text(rng, rng.choice([0, 1, 2, 2, 3]))
        if len(t) < 400: texts.append(t)
    put("text", texts)
    put("cut", [t[:rng.randrange(len(t) + 1)] for t in texts[:ctx.n(400, 8000)]])
    put("mut", [jsongen.mutate(rng, rng.choice(texts)) for _ in range(ctx.n(1000, 25000))])
    # small documents with one token put in, left out, doubled or exchanged, at every place
    bases = ["{ a : 1 , 'b' = [ 2 , `c` ] | d | { } }", "[ { a : 1 } , [ ] , -.5 , true ]", "a = 1 \n b : { c | 2 \n d = 'x' , } \n", "{ a | 1 | b | 2 | }", "[ 1 , [ 2 , 3 , ] , ]"]
    toks1 = ["{", "}", "[", "]", ",", ":", "=", "|", "\n", "a", "1", "'b'", "`", "\"", "/**/", "//", "/*", "true", "-", ".", "+", "\\", "0x1", "1e5", " "]
    near = set()
    for b in bases:
        ts = b.split(" ")
        for i in range(len(ts) + 1):
            for x in toks1: near |= {" ".join(ts[:i] + [x] + ts[i:]), "".join(ts[:i] + [x] + ts[i:])}
            if i < len(ts): near |= {" ".join(ts[:i] + ts[i + 1:]), "".join(ts[:i] + ts[i + 1:])} | {" ".join(ts[:i] + [x] + ts[i + 1:]) for x in toks1}
    near = sorted(near); put("near", near if ctx.thorough else rng.sample(near, 2600) + [" ".join(b.split(" ")[:i] + [b.split(" ")[i]] * 2 + b.split(" ")[i + 1:]) for b in bases for i in range(len(b.split(" ")))] )
    short = ['{"a":{"b":[1,"c",`d`]},e="f"\n}', "a=1\nb='x'\n", '[[{a:.5e3}],{}]', '{"a\\"b":"c\\"d"/*x*/,$y|-NaN}//']
    put("trunc", [t[:k] for t in short for k in range(len(t) + 1)])
    put("oom", [t for t in texts if len(t) < 150][:ctx.n(150, 2000)] + short, "oom")
    bad = ["[1,,2]", "[,]", "[1 2]", "{a:}", "{a:,b:1}", "{,}", "{a 1}", "{:1}", "{1:2}", "[tru]", "[trueb]", "[true1]", "[nullx]", "[12ab]", "[0x]", "[1.2.3]", "[1e]", "[1e+]", "[--1]", "[+-1]", "[.]", "[-]", "[+]", "[e5]", "[1_0]", "{a:1}}", "[1]]", "{}x", "[] []", "a=1}", "a=1]", "{a:1", "[{", "[[", "{a:{", "{a:[", '"', '{"', "{'a", '{"a"', '{"a":"', "[`", "['", "/*", "/", "{/*}", "[1/*]", "{a/*:1}", "//", "{}//", "{}/**/", "{}/", "{a", "{a ", "{a:", "{a: ", "a", "a=", '{"a\\":1}', '{"a\\\\":1}', '["a\\"]', '["a\\\\"]', "{'it\\'s':1}", '{"C:\\\\qux":1}', "[" * 40 + "]" * 40, "[" * 40 + "]" * 39,
           "[-.5]", "[+.5]", "[-.5e-2]", "[1e5]", "[-1e18]", "[9e18]", "[0.1e1]", "[1.5e300]", "[" + "1" * 60 + ".5]", "[0." + "3" * 60 + "]", "[1e0000005]", "[." + "0" * 40 + "1]", "\n\n{a:1}", "\n[1]", "{a:1\n,b:2}", "{a:1//x\n,b:2}", "{a:1\n|b:2}", "{a:1,\n,b:2}", "{a|1|b|2|}", "{\"a\" /*q*/ : /*r*/ 1}"]
    put("case", bad)
    # the trees built without their layout information (ZPL_PARSER_DISABLE_ANALYSIS) keep the same promises
    lean = [("lean_" + n, s) for n, s in rng.sample(segs, min(len(segs), ctx.n(110, 4000)))]
    ctx.conform_multi([(ctx.build("json.c"), segs), (ctx.build("json.c", name="json_lean", flags=["-DZPL_PARSER_DISABLE_ANALYSIS"]), lean)], "TraceJson")
