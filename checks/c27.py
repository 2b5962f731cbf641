import vp
TECH = "TLC model checking of the CSV grammar (MCCsv.tla: all short token sequences; MCCsvDoc.tla: all small tables in all layouts) + conformance: texts from the models, random tables, cuts and mutations are parsed, written and parsed again by the real code and judged by CsvText.tla, which parses every text itself"
def run(ctx):
    rng = ctx.rng
    ctx.mc("MCCsv", vp.cfg({"MaxToks": ctx.n(4, 6)}, spec="Spec", inv=["Ok"]), emit=False, workers=8, timeout=1500)
    h = ctx.mc("MCCsv", vp.cfg({"MaxToks": ctx.n(5, 6)}, spec="Spec", aconst="Emit"), workers=8, tag="tokens", timeout=1500)
    d = ctx.mc("MCCsvDoc", vp.cfg({"Wide": "TRUE" if ctx.thorough else "FALSE"}, spec="Spec", inv=["Ok"], aconst="Emit"), workers=8, timeout=1500)
    toks = sorted({bytes(x[0]) for x in h}); docs = sorted({(x[0], x[1], bytes(x[2])) for x in d})
    toks = rng.sample(toks, min(len(toks), ctx.n(2500, 60000))); docs = rng.sample(docs, min(len(docs), ctx.n(2500, 60000)))
    segs = []
    def put(name, ts, write=.5):
        for k in range(0, len(ts), 25): 
            ls = []
            for dl, hd, t in ts[k:k + 25]:
                ls.append("parse %d %d %s" % (dl, hd, vp.hx(t if isinstance(t, bytes) else t.encode("latin1"))))
                if rng.random() < write: ls.append("write %d" % rng.choice([dl, dl, 44, 59, 9, 124, 32]))
            segs.append(("%s%d" % (name, k), ls + ["free"]))
    put("tok", [(44, rng.randrange(2), t) for t in toks]); put("doc", docs)
    bare = ["a", "b c", "foo", "x", "n", "e", "E5", "beef", "12ab", "1.2.3.4", "2020-01-01", "1-2", "+", "-", ".", "1e", "0x", "0xg", "--1", "a\"b", "it's", "`", "\\", "\\n", "a\\\"", "%s", "\xc3\xa9", "\xff", "#", "a|b", "12345678901234567890", "true", "1_000", "a" * 60]
    nums = ["0", "1", "-1", "+5", "12", "007", "1.5", "-0.25", ".5", "-.5", "5.", "1e3", "1E-3", "2.5e2", "0x1F", "0Xff", "123456789012345678", "-99999999999999999", "0.0", "-0", "99.999999", "1e+2", "1.", "0.1", "3.14159265"]
    quoted = ["", "a", ",", ";", "\t", "\n", "\r\n", "\"\"", "\"\"\"\"", "a\"\"b", " a ", "1", "-2.5", "x,y\nz", "\"\",\"\"", "''", "\\", "a" * 80, "\n\n", " ", "|"]
    def field(dl, p):
        c = rng.random()
        if c < p: return '"%s"' % rng.choice(quoted)
        if c < .7: s = rng.choice(nums)
        elif c < .8: s = ""
        else: s = rng.choice(bare)
        if rng.random() < .15: s = "".join(rng.choice("0123456789.-+eExXabf ") for _ in range(rng.choice([1, 2, 3, 4, 6]))).strip()
        return "" if chr(dl) in s else s
    def table(width=None, ragged=False):
        dl = rng.choice([44, 44, 44, 59, 124, 9, 32, 58]); w = width or rng.choice([1, 1, 2, 2, 3, 4, 7, 20]); n = rng.choice([1, 1, 2, 3, 5, 9]); p = rng.choice([0, .2, .5]); sp = rng.random() < .3; nl = rng.choice(["\n", "\n", "\r\n"]); rows = []
        for i in range(n):
            ws = w + (rng.choice([-1, 1]) if ragged and rng.random() < .4 else 0)
            rows.append(chr(dl).join((rng.choice(["", " ", "\t", "  "]) if sp and dl not in (9, 32) else "") + field(dl, p) + (rng.choice(["", " ", "\r"]) if sp and dl not in (9, 32) else "") for _ in range(max(1, ws))))
            if rng.random() < .07: rows.append("")
        return dl, rng.randrange(2), nl.join(rows) + rng.choice(["", nl, nl + nl])
    tabs = [table() for _ in range(ctx.n(1500, 30000))]; tabs = [t for t in tabs if len(t[2]) < 700]
    put("tab", tabs); put("ragged", [table(ragged=True) for _ in range(ctx.n(400, 8000))])
    put("cut", [(a, b, t[:rng.randrange(len(t) + 1)]) for a, b, t in tabs[:ctx.n(300, 6000)]])
    def mut(t):
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.randrange(len(t) + 1); t = rng.choice([t[:i] + rng.choice(list('",;\n\r "a1.') + ['""']) + t[i:], t[:i] + t[i + 1:], t[:i] + t[i:i + 4] + t[i:]])
        return t
    put("mut", [(a, b, mut(t)) for a, b, t in rng.choices(tabs, k=ctx.n(1200, 30000))])
    put("long", [(44, 0, "x" * 70000 + ",1\n2,\"" + "y" * 66000 + "\""), (44, 1, "\"%s\",b\n1,%s\n" % ("h" * 65536, "z" * 65535)), (44, 0, ",".join("%d" % i for i in range(400)) + "\n" + "," * 399)], 1)
    cells = ["", "a", " a", "a ", ",", ";", "a,b", "\"", "a\"b", "\"\"", "\n", "a\nb", "\r", "a\r", "\t", "x y", "\\", "\"a\"", " ", "\xc3\xa9", "it's", "%d", "|", "l" * 50]
    for k in range(ctx.n(250, 6000)):
        w, n, hd = rng.choice([1, 1, 2, 3, 5]), rng.choice([0, 1, 2, 4]), rng.randrange(2); n = n or 1 - hd; ls = ["build %d %d %d" % (w, n, hd)]
        for i in range(w):
            ls.append("%s %d" % (vp.hx(rng.choice(cells).encode("latin1")), rng.choice([0, 2])))
            for j in range(n): ls.append(rng.choice(["str %d %s" % (rng.choice([0, 2]), vp.hx(rng.choice(cells).encode("latin1")))] * 3 + ["int %d" % rng.choice([0, 5, -7, 10**17]), "flt %s" % rng.choice(["0.5", "-3.25", "1234.5"])]))
        segs.append(("built%d" % k, ls + ["write %d" % x for x in rng.sample([44, 59, 9, 32, 124], 3)] + ["free"]))
    ctx.conform(ctx.build("csv.c"), "TraceCsv", segs)
