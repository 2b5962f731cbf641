import vp
TECH = "TLC: regions over a small address space whose pages are mapped and unmapped range by range (MCVirtMem: what is mapped is what the regions hold, with the content their users expect); conformance: every explored and random histories on the real code, each page of each region and every mapped page judged by TraceVirtMem"
class Sim:
    def __init__(self, r): self.r = r; self.n = {}; self.ls = ["pagesize"]
    def go(self, k):
        r = self.r
        for _ in range(k):
            h = r.randrange(6); deny = r.random() < .08
            if h not in self.n:
                n = r.choice([1, 1, 2, 3, 5, 9, 30]); t = ""
                if self.n and r.random() < .4: g = r.choice(list(self.n)); t = " %d %d" % (g, r.choice([0, 1, self.n[g], self.n[g] + 1]))
                if deny: self.ls.append("deny")
                else: self.n[h] = n
                self.ls.append("alloc %d %d%s" % (h, n, t)); continue
            n = self.n[h]; c = r.random()
            if c < .45: self.ls.append("fill %d %d %d" % (h, r.randrange(n), r.randrange(1, 256)))
            elif c < .75: lead = r.choice([0, 0, 1, n // 2, r.randrange(n)]); lead = min(lead, n - 1); m = r.choice([n - lead, 1, r.randrange(1, n - lead + 1)]); self.ls.append("trim %d %d %d" % (h, lead, m)); self.n[h] = m
            elif c < .87: self.ls += ["deny"] * deny + ["purge %d" % h]
            else:
                if deny: self.ls.append("deny")
                else: del self.n[h]
                self.ls.append("free %d" % h)
        return self.ls
def run(ctx):
    rng = ctx.rng; inv = dict(spec="Spec", inv=["Held", "Faithful", "Apart"])
    ctx.mc("MCVirtMem", vp.cfg({"Pages": ctx.n(7, 9), "Depth": ctx.n(5, 7)}, view="View", **inv), emit=False, workers=8, timeout=850, tag="all")
    g = ctx.mc("MCVirtMem", vp.cfg({"Pages": 5, "Depth": 4}, aconst="Emit", **inv), emit=True, workers=8, tag="gen")
    g = [list(x) for x in sorted({tuple(tuple(o) for o in h) for h in g})]
    k = ctx.n(6000, 60000); g = rng.sample(g, k) if len(g) > k else g
    segs = [("hist%d" % i, [" ".join(map(str, o)) for o in h]) for i, h in enumerate(g)]
    segs += [("rand%d" % i, Sim(rng).go(ctx.n(40, 120))) for i in range(ctx.n(250, 4000))]
    segs.append(("wrap", ["wrap %d %d" % (a, s) for a, s in [(0, 0), (4096, 1), (1 << 47, 1 << 33), (12345, 77)]]))
    rng.shuffle(segs); o = ctx.build("vm.c"); p = ctx.build("vm.c", name="vm_o2", asan=False, opt="-O2")
    ctx.conform_multi([(o, segs[::2]), (p, segs[1::2])], "TraceVirtMem", timeout=120, runjobs=3)
