import os, vp
TECH = "TLC: every short history of two connections over a listener and of three datagram sockets (Sockets: nothing lost, reordered or duplicated, the end only after the bytes, distinct ends and ports); conformance: those and random histories, whole transfers and blocked receivers over the loopback interface on the real code, traces judged by TraceSocket, which also counts open descriptors"
def case(h):
    """a history of the model as a script: what is expected to be there is waited for"""
    ls = []; kind = {}
    for o in h:
        k = o[0]
        if k == "bind":
            ls.append("bind %s %d %d %d" % (o[1], o[2], 0 if o[2] == 9 else -1, 0 if o[2] == 9 else 1))
        elif k == "listen": ls.append("listen 0 4")
        elif k == "connect": ls.append("connect %s %d 0 %d" % (o[1], o[2], o[1] == "udp"))
        elif k == "accept": ls += ["select 20 0", "accept 0 %d 0" % o[2]]
        elif k == "send": ls.append("send %d %s" % (o[1], vp.hx(bytes(o[2:]))))
        elif k == "sendto": ls.append("sendto %d %d %s" % (o[1], o[2], vp.hx(bytes(o[3:]))))
        elif k in ("recv", "recvfrom"): ls += ["select 3000 %d" % o[1], "recv %d %d" % (o[1], o[2]) if k == "recv" else "recvfrom %d %d 0" % (o[1], o[2])]
        elif k == "close": ls.append("close %d" % o[1])
    return ls
class Sim:
    """just enough of the world to never ask the real code something that would wait for ever"""
    def __init__(self, rng, six):
        self.r = rng; self.h = {}; self.c = []; self.ls = []; self.ntok = 0; self.dead = []; self.last = 0
        self.fam = rng.choice([0, 0, 1, 2] if six else [0, 0, 2])
        if self.fam: self.ls.append("fam %d" % self.fam)
    def free(self):
        f = [i for i in range(10) if i not in self.h]
        return self.r.choice(f) if f else None
    def of(self, *ks): return [i for i in self.h if self.h[i]["k"] in ks]
    def data(self):
        n = self.r.choice([0, 1, 1, 2, 3, 5, 17, 40, 300]); return bytes(self.r.randrange(256) for _ in range(n))
    def conn(self, x): return self.c[x["c"]]
    def ready(self, i):
        x = self.h[i]
        if x["k"] == "str": c = self.conn(x); return c["q"][x["s"]] > 0 or c["gone"][1 - x["s"]]
        return bool(x["pend"]) if x["k"] == "tcp" else x["q"] > 0
    def sure(self, i):
        x = self.h[i]
        return not self.conn(x)["rst"] if x["k"] == "str" else x["lis"] if x["k"] == "tcp" else not x["err"]
    def bind(self, udp):
        i = self.free()
        if i is None: return
        same = self.of("udp" if udp else "tcp"); t = -1
        if same and self.r.random() < .25: t = self.r.choice(same)
        nb = self.r.random() < .5; nd = 2 * (self.r.random() < .4)
        self.ls.append("bind %s %d %d %d" % ("udp" if udp else "tcp", i, t, nb + nd))
        if t < 0: self.ntok += 1; self.h[i] = dict(k="udp" if udp else "tcp", nb=nb, lis=False, cap=0, pend=[], q=0, qs=[], err=False, port=self.ntok, peer=0)
    def connect(self):
        i = self.free()
        if i is None: return
        nb = self.r.random() < .3; fl = nb + 2 * (self.r.random() < .4)
        L = [j for j in self.of("tcp") if self.h[j]["lis"] and len(self.h[j]["pend"]) < self.h[j]["cap"]]
        if L and self.r.random() < .85:
            l = self.r.choice(L); self.ls.append("connect tcp %d %d %d" % (i, l, fl)); self.ntok += 1
            self.h[i] = dict(k="str", c=len(self.c), s=1, nb=nb, up=not nb); self.h[l]["pend"].append(len(self.c)); self.c.append(dict(q=[0, 0], gone=[False, False], rst=False, cl=i))
        else:
            N = [j for j in self.of("tcp") if not self.h[j]["lis"]]
            self.ls.append("connect tcp %d %d %d" % (i, self.r.choice(N + [-1]), fl & 2))
    def uconnect(self):
        i = self.free(); U = self.of("udp")
        if i is None or not U: return
        t = self.r.choice(U); nb = self.r.random() < .5; self.ntok += 1
        self.ls.append("connect udp %d %d %d" % (i, t, nb)); self.h[i] = dict(k="udp", nb=nb, lis=False, cap=0, pend=[], q=0, qs=[], err=False, port=self.ntok, peer=self.h[t]["port"])
    def listen(self):
        T = self.of("tcp") + ([self.r.choice(list(self.h))] if self.h and self.r.random() < .2 else [])
        if not T: return
        i = self.r.choice(T); n = self.r.randrange(1, 6); self.ls.append("listen %d %d" % (i, n))
        if self.h[i]["k"] == "tcp": self.h[i].update(lis=True, cap=n)
    def accept(self):
        T = [i for i in self.of("tcp") if self.h[i]["nb"] or self.h[i]["pend"] or not self.h[i]["lis"]] * 3 + self.of("udp") + self.of("str")
        j = self.free()
        if not T or j is None: return
        i = self.r.choice(T); x = self.h[i]
        if x["k"] == "tcp" and x["pend"]:
            self.ls.append("select 3000 %d" % i); c = x["pend"].pop(0); self.h[j] = dict(k="str", c=c, s=0, nb=False, up=True)
            for k in self.h.values():
                if k["k"] == "str" and k["c"] == c: k["up"] = True
        self.ls.append("accept %d %d %d" % (i, j, self.r.random() < .3))
    def send(self):
        S = [i for i in self.of("str") if self.h[i]["up"]] * 4 + self.of("tcp") + self.of("udp")
        if not S: return
        i = self.r.choice(S); x = self.h[i]; d = self.data()
        if x["k"] == "str":
            c = self.conn(x); y = 1 - x["s"]
            if c["q"][y] > 20000: return
            self.ls.append("send %d %s" % (i, vp.hx(d)))
            if c["gone"][y] or c["rst"]: c["rst"] = True
            else: c["q"][y] += len(d)
        elif x["k"] == "udp": self.deliver(i, x["peer"], d) and self.ls.append("send %d %s" % (i, vp.hx(d)))
        else: self.ls.append("send %d %s" % (i, vp.hx(d or b"x")))
    def deliver(self, i, to, d):
        x = self.h[i]
        T = [j for j in self.of("udp") if to and self.h[j]["port"] == to]
        if any(self.h[j]["q"] >= 10 for j in T): return False
        if x["err"]: return False
        M = [j for j in T if self.h[j]["peer"] in (0, x["port"])]
        if not M: x["err"] = True
        for j in M: self.h[j]["q"] += 1; self.h[j]["qs"].append(x["port"])
        return True
    def sendto(self):
        U = self.of("udp"); V = [i for i in U if not self.h[i]["peer"]]
        if not V: return
        i = self.r.choice(V); d = self.data()
        if self.last and self.r.random() < .25:
            if self.deliver(i, self.last, d): self.ls.append("reply %d %s" % (i, vp.hx(d)))
        elif self.dead and self.r.random() < .1:
            t = self.r.choice(self.dead)
            if self.deliver(i, t, d): self.ls.append("sendto %d %d %s" % (i, 100 + t, vp.hx(d)))
        else:
            t = self.r.choice(U)
            if self.deliver(i, self.h[t]["port"], d): self.ls.append("sendto %d %d %s" % (i, t, vp.hx(d)))
    def recv(self):
        R = [i for i in self.h if self.ready(i) and self.h[i]["k"] != "tcp"] * 5 + [i for i in self.h if self.h[i]["k"] == "tcp" or self.h[i]["nb"]]
        R = [i for i in R if self.h[i]["k"] == "tcp" or self.ready(i) or self.h[i]["nb"]]
        if not R: return
        i = self.r.choice(R); x = self.h[i]; n = self.r.choice([1, 2, 3, 7, 64, 400, 1000]); fr = x["k"] == "udp" and self.r.random() < .8 or self.r.random() < .15 and not (x["k"] == "str" and self.ready(i))
        if x["k"] != "tcp" and self.ready(i) and self.sure(i): self.ls.append("select 3000 %d" % i)
        if x["k"] == "udp" and x["err"] and not x["nb"]: return
        self.ls.append("recvfrom %d %d %d" % (i, n, int(self.r.random() < .25)) if fr else "recv %d %d%s" % (i, n, " %d" % min(n, self.conn(x)["q"][x["s"]]) if x["k"] == "str" and not self.conn(x)["rst"] and self.conn(x)["q"][x["s"]] else ""))
        if x["k"] == "str": c = self.conn(x); c["q"][x["s"]] = max(0, c["q"][x["s"]] - n)
        elif x["k"] == "udp":
            if x["q"]:
                x["q"] -= 1; p = x["qs"].pop(0)
                if fr and self.ls[-1].endswith(" 0"): self.last = p
    def select(self):
        S = [i for i in self.h if self.sure(i)]
        self.r.shuffle(S); S = S[:self.r.randrange(1, 6)]
        if self.r.random() < .2: S.insert(self.r.randrange(len(S) + 1), -1)
        if not S: return
        rd = any(i >= 0 and self.ready(i) for i in S)
        self.ls.append("select %d %s" % (3000 if rd else self.r.choice([0, 0, 3, 12]), " ".join(map(str, S))))
    def address(self):
        if self.h: self.ls.append("address %d %d" % (self.r.choice(list(self.h)), 2 if self.fam else self.r.randrange(3)))
    def close(self, i=None):
        if not self.h: return
        i = self.r.choice(list(self.h)) if i is None else i; x = self.h.pop(i); self.ls.append("close %d" % i)
        if x["k"] == "str":
            c = self.conn(x); c["gone"][x["s"]] = True; c["rst"] |= c["q"][x["s"]] > 0
        elif x["k"] == "tcp":
            for c in x["pend"]: self.c[c]["rst"] = True; self.c[c]["gone"][0] = True
        else: self.dead.append(x["port"])
    def whole(self):
        P = [(i, j) for i in self.of("str") for j in self.of("str") if i != j and self.h[i]["c"] == self.h[j]["c"]]
        P = [(i, j) for i, j in P if not self.conn(self.h[i])["rst"] and self.conn(self.h[i])["q"] == [0, 0] and not self.h[i]["nb"]]
        if not P: return
        i, j = self.r.choice(P)
        if self.r.random() < .5 or self.h[j]["nb"]: self.ls.append("bulk %d %d %d %d %d %d" % (i, j, self.r.choice([1, 100, 5000, 70000, 300000]), self.r.choice([100, 4096, 65536, 300000]), self.r.choice([64, 1000, 65536]), self.r.randrange(256)))
        else: self.ls.append("wake %d %d %s %d" % (i, j, vp.hx((self.data() or b"w")[:200]), self.r.choice([0, 100, 3000])))
    def run(self, n, w):
        ops = [self.bind, self.connect, self.uconnect, self.listen, self.accept, self.send, self.sendto, self.recv, self.select, self.address, self.close, self.whole]
        for _ in range(n):
            o = self.r.choices(ops, w)[0]
            if o == self.bind: o(w[2] and (not w[1] or self.r.random() < .5))
            else: o()
        for i in list(self.h): self.close(i)
        return self.ls
MIX = {"tcp": [2, 4, 0, 3, 4, 8, 0, 8, 3, 2, 1.5, 2], "udp": [2, 0, 2, .3, .3, 3, 9, 9, 3, 2, 1.2, 0], "all": [2, 3, 1, 2, 3, 6, 4, 8, 4, 2, 1.5, 1]}
def run(ctx):
    rng = ctx.rng
    hs = []
    for kind, n in (("tcp", ctx.n(6, 8)), ("udp", ctx.n(5, 7))):
        h = ctx.mc("MCSockets", vp.cfg({"Kind": '"%s"' % kind, "MaxOps": n, "Emit": "TRUE"}, spec="Spec", inv=["Faithful", "Apart", "Ports", "Orderly"]), emit=True, tag=kind, workers=6, timeout=1500)
        k = ctx.n(1500, 8000); hs += [(kind, x) for x in (rng.sample(h, k) if len(h) > k else h)]
    six = os.path.exists("/proc/net/if_inet6") and "00000000000000000000000000000001" in open("/proc/net/if_inet6").read()
    b = ctx.build("sock.c"); f = ctx.build("sock.c", name="sock_o2", asan=False, opt="-O2")
    segs = []
    for i, (kind, h) in enumerate(hs): segs.append(("%shist%d" % (kind, i), (["fam 1"] if six and i % 5 == 4 else []) + case(h)))
    for i in range(ctx.n(700, 12000)):
        m = rng.choice(["tcp", "tcp", "udp", "all"]); segs.append(("%s%d" % (m, i), Sim(rng, six).run(rng.choice([8, 15, 30, 60]), MIX[m])))
    for p in (0, 1):
        for m in (0, 1): segs.append(("refuse%d%d" % (p, m), ["refuse %d %d %d" % (p, m, k) for k in (0, 1)] * 2))
    for i in range(ctx.n(2, 6)):
        segs.append(("long%d" % i, ["bind udp 0 -1 1", "select %d 0" % rng.choice([1030, 1250, 2005]), "bind udp 1 -1 0", "sendto 1 0 x61", "select 3000 0 1", "select 3000 1 -1 0", "recvfrom 0 9 0", "select %d 0 1" % rng.choice([1100, 1010]), "close 0", "close 1"]))
    for i in range(ctx.n(4, 40)):     # many connections waiting at once, taken in order
        n = rng.randrange(2, 5); ls = ["bind tcp 0 -1 0", "listen 0 4"] + ["connect tcp %d 0 0" % (k + 1) for k in range(n)]
        ls += ["send %d %s" % (k + 1, vp.hx(b"client%d" % k)) for k in range(n)] + sum([["accept 0 %d 0" % (5 + k)] for k in range(n)], []) + sum([["select 3000 %d" % (5 + k), "recv %d 99" % (5 + k)] for k in rng.sample(range(n), n)], [])
        segs.append(("queue%d" % i, ls))
    rng.shuffle(segs)
    ctx.conform_multi([(b, segs[k::8]) for k in range(6)] + [(f, segs[k::8]) for k in (6, 7)], "TraceSocket", timeout=200, env={"VP_LINE": "20"})
