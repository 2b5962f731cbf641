import vp
TECH = "TLC: a walk through whole years in eleven zones (MCClock: two changes a year, on the days the rules name) and the sleep that signals cut short (all of what was asked is slept); conformance: every change, hours between and random instants and zones on the real code, whose system clock and sleep are the script's, judged by TraceClock"
def off(s):
    a = abs(s); t = "%d" % (a // 3600)
    if a % 3600: t += ":%02d" % (a % 3600 // 60)
    if a % 60: t += ":%02d" % (a % 60)
    return ("-" if s < 0 else "") + t
def tz(z):
    t = "<AAA>" + off(-z["std"])
    if z["has"]: t += "<BBB>" + off(-z["dst"]) + "".join(",M%d.%d.%d/%s" % (r["m"], r["w"], r["wd"], off(r["t"])) for r in (z["from"], z["to"]))
    return t
def line(z): return "zone %s %d %d %d %s" % (vp.hx(tz(z).encode()), z["std"], z["dst"], z["has"], " ".join("%d %d %d %d" % (r["m"], r["w"], r["wd"], r["t"]) for r in (z["from"], z["to"])))
def around(d, ms, r): return ["now %d %d %d" % (d + (ms + x) // 86400000, (ms + x) % 86400000, r.choice([0, 0, 1000, 500000, 990000])) for x in (-3600001, -3600000, -1000, -1, 0, 1, 999, 3600000, r.randrange(-9000000, 9000000))]
def zone(r):
    std = r.choice([r.randrange(-12, 15) * 3600, r.randrange(-48, 57) * 900]); rule = lambda ms: dict(m=r.choice(ms), w=r.randrange(1, 6), wd=r.randrange(7), t=r.choice([0, 3600, 7200, 10800, r.randrange(0, 24) * 3600 + r.randrange(60) * 60]))
    a, b = ([2, 3, 4, 5], [8, 9, 10, 11]) if r.random() < .5 else ([8, 9, 10, 11], [2, 3, 4, 5])
    return dict(std=std, dst=std + r.choice([3600, 3600, 1800, 7200, -3600, 1200]), has=r.random() < .8, **{"from": rule(a), "to": rule(b)})
def run(ctx):
    r = ctx.rng; segs = []
    g = ctx.mc("MCClock", vp.cfg({"Years": "{1970, 2000, 2037, 2100}" if not ctx.thorough else "1970..2110", "Longest": 1}, spec="SpecZ", inv=["InvZ", "AllSeen"], aconst="EmitZ"), emit=True, workers=8, timeout=850, tag="zones")
    by = {}
    for z, t in g: by.setdefault(tz(z), (z, []))[1].append(t)
    for k, (z, ts) in by.items():
        for i in range(0, len(ts), 20):
            ls = [line(z)]
            for t in ts[i:i + 20]: ls += [x for n in around(t["d"], t["ms"], r) for x in (n, "tz", "utc")]
            segs.append(("zone%d" % len(segs), ls))
    for i in range(ctx.n(150, 3000)):
        ls = []
        for _ in range(3):
            ls.append(line(zone(r)))
            for _ in range(8): ls += ["now %d %d %d" % (r.randrange(1, 47000), r.randrange(86400000), r.choice([0, 7, 1000, 998000])), "tz", "utc"]
        segs.append(("rand%d" % i, ls))
    s = ctx.mc("MCClock", vp.cfg({"Years": "{2000}", "Longest": 5}, spec="SpecS", inv=["InvS"], aconst="EmitS"), emit=True, tag="sleep")
    for i in range(0, len(s), 40):
        segs.append(("sleep%d" % i, ["mono 1 5200000", "now 9000 0"] + [x for h in s[i:i + 40] for x in ("sleep %d %s" % (h["want"], " ".join(map(str, h["cuts"]))), "sleep %d %s" % (h["want"] * 1700, " ".join(str(c * 1700) for c in h["cuts"])))] + ["rel", "utc"]))
    for i in range(ctx.n(60, 1500)):
        ls = ["now %d %d" % (r.randrange(1, 40000), r.randrange(86400000)), "mono %d %d" % (r.randrange(1, 2000), r.randrange(86400000))]
        for _ in range(25):
            c = r.random()
            if c < .3: ls.append("mono %d %d %d" % (r.choice([0, 0, 1, 49, 50, r.randrange(20000)]), r.randrange(5123789, 86400000), r.choice([0, 1000, 500000, 990000])))
            elif c < .45: ls += ["rel", "utc", "tz"]
            elif c < .6: ls.append("win %d %d" % (r.randrange(0, 100000), r.randrange(86400000)))
            elif c < .75: ls.append("sleepf %d" % (r.choice([0, 125, 250, 375, 500, 1000, 1500, 2000, 3750, 60000, 123500, 1000 * r.randrange(4096)])))
            else: w = r.choice([0, 1, 999, 1000, 1001, 4294967295, 4294967000, r.randrange(1 << 32), r.randrange(5000), 1000 * r.randrange(4294967)]); ls.append("sleep %d %s" % (w, " ".join(str(r.choice([0, 1, r.randrange(w + 1)])) for _ in range(r.choice([0, 0, 1, 2, 5])))))
            ls.append("rel")
        segs.append(("run%d" % i, ls))
    r.shuffle(segs)
    ctx.conform_multi([(ctx.build("clock.c"), segs[::2]), (ctx.build("clock.c", name="clock_o2", asan=False, opt="-O2"), segs[1::2])], "TraceClock", timeout=100)
