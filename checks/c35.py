import vp
TECH = "TLC: operations as requests that are granted or refused, with block accounting (MCOom: what a failed operation leaves, nothing kept that no object holds); conformance: the explored histories with their refused requests, random histories with every request of every operation refused in turn, and every single and every lasting refusal inside parsers, writers, file helpers, encoders and the heap, judged by TraceOom"
X = vp.hx
def line(e):
    """an operation of the model as a line of the script"""
    o = e["op"]; i = e["i"]; D = " ".join(map(str, e["d"])); P = lambda p: ".".join(map(str, p)) or "-"
    a = {"arr.newcap": "%d" % e["x"], "arr.append": "%d" % e["x"], "arr.appendat": "%d %d" % (e["x"], e["at"]), "arr.appendv": D, "arr.appendvat": "%d %s" % (e["at"], D), "arr.cap": str(e["x"]), "arr.resize": str(e["x"]), "arr.reserve": str(e["x"]),
         "arr.copy": str(e["j"]), "free": "", "str.new": X(bytes(e["d"])), "str.reserve": str(e["x"]), "str.append": X(bytes(e["d"])), "str.set": X(bytes(e["d"])), "str.space": str(e["x"]), "str.dup": str(e["j"]),
         "stm.new": "", "stm.open": X(bytes(e["d"])), "stm.write": X(bytes(e["d"])), "stm.writeat": "%d %s" % (e["at"], X(bytes(e["d"]))), "tree.new": "%s %d" % (e["kind"], 7),
         "tree.app": "%s %s %d %d" % (P(e["p"]), e["kind"], max(e["n"], 0), e["x"]), "tree.set": "%s %s %d %d" % (P(e["p"]), e["kind"], max(e["n"], 0), e["x"]), "tree.move": "%s %s %d" % (P(e["p"]), P(e["q"]), e["at"])}
    if o == "str.join": return "str.join %d %s %s" % (i, X(bytes(e["d"])), " ".join(X(bytes(p)) for p in e["ps"]))
    return ("%s %d %s" % (o, i, a[o])).strip()
def case(h, mode):
    ls = []
    for e, k in h:
        if k >= 0: ls.append("fault %d %d" % (k, mode))
        ls.append(line(e))
    return ls + ["done"]
class Rand:
    """random histories over six objects; every operation is tried with its requests refused one after the other"""
    def __init__(self, r): self.r = r; self.o = {}; self.ls = []
    def do(self, l, sure=False):
        if not sure and self.r.random() < .85: self.ls.append("fault -2 %d" % (self.r.random() < .4))
        self.ls.append(l)
    def text(self, n=None): return bytes(self.r.randrange(97, 123) for _ in range(self.r.choice([0, 1, 2, 5, 9, 30, 200]) if n is None else n))
    def nodes(self, t, p=()):
        yield p, t
        for k, c in enumerate(t["c"]): yield from self.nodes(c, p + (k,))
    def at(self, t, p):
        for k in p: t = t["c"][k]
        return t
    def make(self, i):
        r = self.r; k = r.choice(["arr", "arr", "str", "str", "stm", "tree", "tree"]); old = {j: v for j, v in self.o.items()}
        if k == "arr":
            src = [j for j in old if old[j]["k"] == "arr"]
            if src and r.random() < .4: j = r.choice(src); self.do("arr.copy %d %d" % (i, j)); self.o[i] = dict(k="arr", n=old[j]["n"])
            else: self.do(r.choice(["arr.new %d" % i, "arr.newcap %d %d" % (i, r.choice([0, 1, 2, 3, 20]))])); self.o[i] = dict(k="arr", n=0)
        elif k == "str":
            src = [j for j in old if old[j]["k"] == "str"]; c = r.random(); P = [self.text(r.choice([0, 1, 3, 40])) for _ in range(r.randrange(0, 6))]
            if src and c < .2: j = r.choice(src); self.do("str.dup %d %d" % (i, j)); self.o[i] = dict(k="str", n=old[j]["n"])
            elif c < .45: g = self.text(r.choice([0, 1, 2])); self.do(("str.join %d %s %s" % (i, X(g), " ".join(map(X, P)))).strip()); self.o[i] = dict(k="str", n=sum(map(len, P)) + len(g) * max(len(P) - 1, 0))
            elif c < .55: self.do("str.reserve %d %d" % (i, r.choice([0, 1, 5, 100]))); self.o[i] = dict(k="str", n=0)
            else: t = self.text(); self.do(r.choice(["str.new %d %s", "str.len %d %s", "str.printf %d %s 0", "str.printf %d %s 1"]) % (i, X(t))); self.o[i] = dict(k="str", n=len(t))
        elif k == "stm":
            if r.random() < .5: self.do("stm.new %d" % i); self.o[i] = dict(k="stm", n=0)
            else: t = self.text(); self.do("stm.open %d %s" % (i, X(t))); self.o[i] = dict(k="stm", n=len(t))
        else: kd = r.choice(["obj", "arr"]); self.do("tree.new %d %s %d" % (i, kd, r.randrange(100))); self.o[i] = dict(k="tree", t=dict(t=kd, c=[]))
    def use(self, i):
        r = self.r; o = self.o[i]; k = o["k"]
        if k == "arr":
            n = o["n"]; c = r.randrange(9); V = [r.randrange(1000) for _ in range(r.choice([0, 1, 2, 3, 10, 30]))]; S = " ".join(map(str, V))
            if c == 0: self.do("arr.append %d %d" % (i, r.randrange(1000))); o["n"] += 1
            elif c == 1 and n: self.do("arr.appendat %d %d %d" % (i, r.randrange(1000), r.randrange(n + 1))); o["n"] += 1
            elif c in (2, 3): self.do(("arr.appendv %d %s" % (i, S)).strip() if c == 2 or not n else ("arr.appendvat %d %d %s" % (i, r.randrange(n + 1), S)).strip()); o["n"] += len(V)
            elif c == 4: m = r.choice([0, 1, n, n + 1, max(n - 1, 0), n // 2, 2 * n + 3]); self.do("arr.cap %d %d" % (i, m)); o["n"] = min(n, m)
            elif c == 5: self.do("arr.grow %d %d" % (i, r.choice([0, n + 1, 3 * n + 20])))
            elif c == 6: self.do("arr.reserve %d %d" % (i, r.choice([0, n + 1, 2 * n + 9])))
            else: m = r.choice([0, n + 1, n // 2, 2 * n + 9]); self.do("arr.resize %d %d" % (i, m)); o["n"] = m
            if o["n"] > 150: self.do("arr.resize %d 5" % i); o["n"] = 5
        elif k == "str":
            c = r.randrange(7); t = self.text(); J = [j for j in self.o if self.o[j]["k"] == "str" and j != i]
            if c < 3: self.do("str.%s %d %s" % (["append", "appendc", "fmt"][c], i, X(t))); o["n"] += len(t)
            elif c == 3: self.do("str.set %d %s" % (i, X(t))); o["n"] = len(t)
            elif c == 4: self.do("str.space %d %d" % (i, r.choice([0, 1, 10, 300])))
            elif c == 5: u = r.choice(["a", "\u00e9", "\u20ac", "\U0001f600"]).encode(); self.do("str.rune %d %s" % (i, X(u))); o["n"] += len(u)
            elif J: j = r.choice(J); self.do("str.add %d %d" % (i, j)); o["n"] += self.o[j]["n"]
            if o["n"] > 500: self.do("str.set %d %s" % (i, X(b"zz"))); o["n"] = 2
        elif k == "stm":
            c = r.randrange(5); t = self.text()
            if c == 0: self.do("stm.seek %d %d" % (i, r.choice([0, o["n"], o["n"] // 2])), True)
            elif c == 1: self.do("stm.writeat %d %d %s" % (i, r.choice([0, o["n"], o["n"] // 2, o["n"] + 1, o["n"] + 30]), X(t))); o["n"] += len(t)
            else: self.do("stm.%s %d %s" % (r.choice(["write", "print"]), i, X(t))); o["n"] += len(t)
            if o["n"] > 900: self.drop(i)
        else:
            t = o["t"]; N = list(self.nodes(t)); B = [(p, n) for p, n in N if n["t"] in ("obj", "arr")]; c = r.randrange(8); P = lambda p: ".".join(map(str, p)) or "-"; kd = lambda: r.choice(["obj", "arr", "str", "int", "flt"])
            if len(N) > 40: return self.drop(i)
            if c < 4:
                p, n = r.choice(B if r.random() < .4 else B[:2]); q = kd(); self.do("tree.app %d %s %s %d %d" % (i, P(p), q, r.randrange(100), 0 if q in ("obj", "arr") else r.randrange(100))); n["c"].append(dict(t=q, c=[]))
            elif c == 4: p, n = r.choice(B); a = r.randrange(len(n["c"]) + 1); self.do("tree.at %d %s %d %d" % (i, P(p), a, r.randrange(2))); n["c"].insert(a, dict(t="nil", c=[]))
            elif c == 5:
                L = [(p, n) for p, n in N if n["t"] not in ("obj", "arr") and p]
                if L: p, n = r.choice(L); q = kd(); self.do("tree.set %d %s %s %d %d" % (i, P(p), q, r.randrange(100), 0 if q in ("obj", "arr") else r.randrange(100))); n["t"] = q
            elif c == 6:
                M = [(p, q) for p, n in N if p for q, m in B if q[:len(p)] != p and q != p[:-1]]
                if M:
                    p, q = r.choice(M); m = self.at(t, q); a = r.randrange(len(m["c"]) + 1); self.do("tree.move %d %s %s %d" % (i, P(p), P(q), a)); u = self.at(t, p); par = self.at(t, p[:-1])
                    par["c"] = [x for x in par["c"] if x is not u]; m["c"].insert(a, u)
            elif len(N) > 6: p, n = r.choice([x for x in N if x[0]]); self.do("tree.remove %d %s" % (i, P(p)), True); self.at(t, p[:-1])["c"].pop(p[-1])
    def drop(self, i): self.do("free %d" % i, True); del self.o[i]
    def go(self, n):
        for _ in range(n):
            i = self.r.randrange(6)
            if i not in self.o: self.make(i)
            elif self.r.random() < .05: self.drop(i)
            else: self.use(i)
        return self.ls + ["done"]
JSON = ['{}', '[]', '{"a":1,"b":[1,2,3],"c":{"d":"x","e":[true,false,null,1.5,-2e3,NaN]}}', '[[[[[]]]],{},{"k":{}},"s",`m`]', 'a: 1\nb = [1, 2]\nc | {\nd: "e" }', '[' + ",".join(map(str, range(40))) + ']', '{' + ",".join('"k%d":{"v":[%d]}' % (i, i) for i in range(12)) + '}', '{"s":"a \\"quoted\\" text","t":"%s"}' % ("long " * 60)]
CSV = [('a,b\n1,2\n', 1, ','), ('x,y,z\n', 0, ','), ('"q ""u"" o",2;5\n,\n', 0, ','), ("\n".join(",".join(str(i * j) for i in range(12)) for j in range(14)), 1, ','), ('1\n2\n3\n', 0, ','), (';'.join("c%d" % i for i in range(20)) + "\n" + ';'.join("%d.5" % i for i in range(20)), 1, ';'), ('"two\nlines", spaced out ,"c,d"\n1,2,3\n', 0, ',')]
URI = ['https://x.y/z?a=1&b=two+words&c&d=%41%20', '?k=v', 'host', 'host?' + "&".join("k%d=%d" % (i, i) for i in range(20)), 'h?x=1.5&y=a%26b&z=']
def sweeps(ctx, rng):
    C = []; w = lambda *a: C.append("whole " + " ".join(map(str, a)))
    h = lambda s: X(s.encode())
    def rj(d):
        c = rng.random()
        if d == 0 or c < .4: return rng.choice(["1", "true", "null", '"t"', "-7.25", "0x1f", '"%s"' % ("w" * rng.randrange(30)), "1e5"])
        n = rng.choice([0, 1, 2, 3, 9, 10]); return "[" + ",".join(rj(d - 1) for _ in range(n)) + "]" if c < .7 else "{" + ",".join('"n%d":%s' % (i, rj(d - 1)) for i in range(n)) + "}"
    for t in JSON + ["[" + rj(3) + "]" for _ in range(ctx.n(12, 150))]:
        w("json", h(t)); w("jsonw", h(t), rng.choice([0, 4, -1]))
    for t, hd, d in CSV: w("csv", h(t), hd, d); w("csvw", h(t), hd, d)
    for _ in range(ctx.n(8, 80)):
        cols = rng.randrange(1, 12); t = "\n".join(",".join(rng.choice(["1", "a b", '"q,r"', "2.5", "w"]) for _ in range(cols)) for _ in range(rng.randrange(1, 12))); w("csv", h(t), 1, ','); w("csvw", h(t), 0, ',')
    # the same tokens at every distance from the end of the space a growing stream has
    T = ['"t"', "null", "true", "false", "-12", "0x1f", "1.5", ".5e3", "NaN", "-Infinity", "-0.25", "[]", "{}", '["e"]', "`m`"]
    for k, v in enumerate(T):
        for n in range(ctx.n(k % 2, 0), 24, ctx.n(2, 1)): w("jsonw", h('[{"%s":%s,z:%s}]' % ("p" * n, v, v)), rng.choice([0, 2, -1]))
    for n in range(0, 24, ctx.n(3, 1)):
        for v in ("1", "-2.5", "a b", '"q ""z"""', ""): w("csvw", h("%s,%s\n%s,2\n" % ("c" * (n + 1), v, v)), rng.randrange(2), ",")
        for v in ("k=1", "k=a+b%26", "k", "k=-1.5", "k=true"): w("uriw", h("%s?%s&%s" % ("h" * n, v, v)))
    for t in URI: w("uri", h(t)); w("uriw", h(t))
    w("uriinit", h("origin"))
    q = '{"l":[{"id":1,"n":"a"},{"id":2,"n":"b","r":1.5}],"o":{"x":12}}'
    for u in ["l/[id=2]/n", "o/[x=12]", "l/1/r", "l/[r=1.500000]", "o/x", "l/[n=b]/id"]: w("query", h(q), h(u))
    F = ["file f %s" % h("one\n\ntwo\r\nthree"), "file e x", "file big %s" % X(bytes(rng.randrange(97, 120) if i % 11 else 10 for i in range(600))), "dir d", "file d/a %s" % h("A" * 700), "file d/b %s" % h("b"), "dir d/s", "file d/s/c %s" % h("C" * 512)]
    for f in ["f", "big"]:
        for z in (0, 1): w("rcont", f, z); w("lines", f, z); w("open", f, z)
        w("full", f)
    w("lines", "e", 0); w("full", "nothing/there")
    for z in (0, 1): w("list", "d", z)
    w("list", "nowhere", 1); w("tar", "d")
    for t in ["", "a", "a\nb\n\nc", "\n".join("l%d" % i for i in range(30))]:
        for z in (0, 1): w("split", h(t), z); w("allocstr", h(t), z)
        w("strdup", h(t)); w("asprintf", h(t))
    for t in [b"x", b"four", bytes(range(200))]: w("b64e", X(t))
    for t in [b"eA==", b"Zm91cg==", b"AAEC" * 40]: w("b64d", X(t))
    for t in ["abc", "(a|b)*c+[x-z]?.", "a" * 300, "(" * 20 + "q" + ")" * 20, "[a-z]+(foo|bar){1}\\d\\w*$" if False else "[abc]+(foo|bar)\\d\\w*$", ".*" * 120, "x+" * 200]: w("re", h(t))
    for n in [1, 8, 100, 4096]:
        for z in (0, 1, 2): w("heap", n, z)
    for a, b in [(4, 40), (40, 4), (8, 8), (100, 3000)]: w("regrow", a, b)
    return F, C
def run(ctx):
    rng = ctx.rng; rest = dict(spec="Spec", inv=["Accounted", "Fits"], props=["Ends"])
    K = lambda *k: "{" + ",".join('"%s"' % x for x in k) + "}"
    ctx.mc("MCOom", vp.cfg({"Depth": ctx.n(5, 7), "Kinds": K("arr", "str", "stm", "tree")}, view="View", **rest), emit=False, workers=8, timeout=850, tag="all")
    hs = []
    for k, d in [("arr", 4), ("str", 4), ("stm", 4), ("tree", 5)]:
        g = ctx.mc("MCOom", vp.cfg({"Depth": d, "Kinds": K(k)}, aconst="Emit", **rest), emit=True, workers=8, tag="gen" + k)
        n = ctx.n(500, 4000); hs += rng.sample(g, n) if len(g) > n else g
    segs = []
    for k in range(0, len(hs), 10): segs.append(("hist%d" % (k // 10), [l for j, h in enumerate(hs[k:k + 10]) for l in case(h, (k + j) % 2)]))
    for k in range(ctx.n(90, 1500)): segs.append(("rand%d" % k, Rand(rng).go(ctx.n(60, 90))))
    F, C = sweeps(ctx, rng); rng.shuffle(C)
    wh = [("whole%d" % k, F + C[k:k + 6] + ["done"]) for k in range(0, len(C), 6)]
    heap = [("heap", [c for c in C if c.split()[1] in ("heap", "regrow", "query", "rcont", "open")])]
    heap[0] = ("heap", F + heap[0][1] + ["done"])
    ctx.conform_multi([(ctx.build("oom.c"), segs + wh), (ctx.build("oom.c", name="oom_heap", flags=["-DZPL_HEAP_ANALYSIS"]), heap)], "TraceOom", timeout=120, runjobs=8, env={"VP_MOST": str(ctx.n(24, 300))})
