"""Random documents and layouts of the JSON dialect (used by the checks of C25, C26 and C35)."""
def gen_text(rng, deep=3, safe=False):
    """safe: only what is written back without loss (reals of at most six decimals, no escapes that names may not hold)"""
    R = rng
    def ws(): return R.choice(["", "", "", " ", " ", "\n", "\t", "\r\n", " \n ", "/*c*/", "/* *x/ **/", "//z\n", " // , }\n", "\f", "/**/"])
    def s_body(q):
        out = ""
        for _ in range(R.choice([0, 1, 1, 2, 3, 5])): out += R.choice(["a", "b", "0", " ", ",", "{", "}", "[", "]", ":", "=", "|", "//", "/*", "\n", "\xc3\xa9", "\\n", "\\\\", "\\" + q, "\\u00e9", "\\\"", "'", '"', "`", "%", "%s", "%d"])
        if q in out.replace("\\\\", "").replace("\\" + q, ""): return "x"
        return out
    def name():
        c = R.random()
        if c < .45: return R.choice(["a", "b", "foo", "_x", "$y", "A1_", "true1", "n" * R.randrange(1, 9), "null", "e5"])
        q = R.choice("\"\"'"); return q + s_body(q).replace("`", "") + q
    def integer():
        c = R.random()
        if c < .6: return str(R.randrange(-1000, 1000))
        if c < .7: return R.choice(["0", "-0", "00", "007", "+5", "9223372036854775807", "-9223372036854775808", "-9223372036854775807", "2147483648", "-2147483649", "4294967296"])
        if c < .8: return "0x%s" % R.choice(["0", "1F", "ffffffff", "ffffffffffffffff", "8000000000000000", "DEADbeef", "00a"])
        if c < .9: return "%d%s%d" % (R.randrange(-99, 99), R.choice(["e", "E", "e+", "E+"]), R.randrange(0, 15))
        return str(R.randrange(-2**63, 2**63))
    def real():
        c = R.random(); sg = R.choice(["", "", "-", "+"])
        if c < .5: return sg + "%d.%s" % (R.choice([0, 0, 1, 12, 999, R.randrange(0, 99)]), "".join(R.choice("0123456789") for _ in range(R.randrange(0, 7) if safe else R.randrange(0, 20))))
        if c < .65: return sg + "." + "0" * R.randrange(0, 4) + "".join(R.choice("0123456789") for _ in range(R.randrange(1, 7)))
        if c < .9: return sg + R.choice(["1.", "42.5", "0.001", ".5", "7.25", "1.00", "00.10", "123456789.123456789", "3.05"]) + R.choice("eE") + R.choice(["", "+", "-"]) + str(R.choice([0, 1, 2, 3, 7, 8, 9, 10, 15, 20, 99, 120, 127, 128, 150, 250]))
        return sg + "%de-%d" % (R.randrange(1, 99), R.randrange(1, 20))
    def num():
        return real() if R.random() < .45 else integer()
    def value(d):
        c = R.random()
        if c < .22 and d > 0: return "{" + members(d - 1, True) + "}"
        if c < .42 and d > 0: return "[" + elems(d - 1) + "]"
        if c < .62:
            q = R.choice("\"\"'`"); return q + s_body(q) + q
        if c < .72: return R.choice(["true", "false", "null", "Infinity", "-Infinity", "NaN", "-NaN"])
        return num()
    def elems(d):
        n = R.choice([0, 1, 2, 3, 5, 9 if d < 2 else 3]); out = ws()
        for i in range(n): out += ws() + value(d) + ws() + ("," if i < n - 1 or R.random() < .15 else "")
        return out + ws()
    def members(d, braced):
        n = R.choice([1, 2, 3, 5, 8 if d < 2 else 3] + ([0] if braced else [])); out = ws()
        for i in range(n):
            out += ws() + name() + ws() + R.choice("::::==|") + ws() + value(d) + ws().replace("\n", " " if R.random() < .5 else "\n").replace("//z ", "").replace("// , } ", "")
            if i < n - 1: out += R.choice([",", ",", ",", "\n", "|", "\n,", ", \n"])
            elif R.random() < .2: out += R.choice([",", "\n", "|"])
        return out + ws()
    c = R.random()
    if c < .5: t = "{" + members(deep, True) + "}"
    elif c < .75: t = "[" + elems(deep) + "]"
    else: t = members(deep, False)
    return ws() + t + ws()
def mutate(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2])):
        c = rng.randrange(4); i = rng.randrange(len(t) + 1)
        if c == 0 and t: del t[min(i, len(t) - 1)]
        elif c == 1: t.insert(i, rng.choice("{}[],:=|\"'`\\/*\n 1a.-+e_"))
        elif c == 2: t = t[:i]
        elif t: t[min(i, len(t) - 1)] = rng.choice("{}[],:=|\"'`\\/*\n 1a.-+")
    return "".join(t)
