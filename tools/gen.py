"""Scenario generator: seeded random scripts for harness/sim.c, in suites aimed at different parts of the behaviour."""
import random

LENS_SMALL = list(range(1, 40))
LENS_EDGE = [0, 1, 2, 17, 20, 21, 255, 256, 257, 1000, 1452, 1472, 4096, 9000, 16384, 21800, 32699, 32700, 32767, 32768, 40000, 65311, 65312]
CAPS = [1, 2, 3, 4, 5, 16, 17, 18, 19, 20, 21, 22, 23, 37, 100, 1000, 20000, 40000, 65398, -1, -1, -1, -2, -2, -3, -4, -5]


class Gen:
    def __init__(self, rnd, **o):
        self.r = rnd
        self.o = dict(pubs=1, subs=1, lens="small", clean=False, ops=60, loss=0.2, w={}, cfg_var=False, settle=False, end=True,
                      base=0, faults=False, frag=0.3, auto=None, ann_iv=0, thr=None, maxp=None, maxs=None)
        self.o.update(o)
        self.L = []
        self.uid = rnd.randrange(1, 1 << 20)
        self.pubs, self.subs, self.raws = [], [], []
        self.ip = {}
        self.dead = set()

    def a(self, *x):
        self.L.append(" ".join(str(y) for y in x))

    def ch(self, *x):
        return self.r.choice(x)

    def p(self):
        return self.r.choice(self.pubs)

    def s(self):
        return self.r.choice(self.subs)

    def length(self):
        k = self.o["lens"]
        if k == "small":
            n = self.r.choice(LENS_SMALL)
        elif k == "edge":
            n = self.r.choice(LENS_EDGE) if self.r.random() < .7 else self.r.randrange(0, 65313)
        elif k == "big":
            n = self.r.choice([65312, 65311, 40000, 32700, 32699, 21799, 21778, 21779, 21800, 16000, 30000, self.r.randrange(8000, 65313)])
        elif k == "mid":
            n = self.r.randrange(300, 9000)
        else:
            n = self.r.choice(LENS_SMALL + LENS_EDGE)
        if self.o["clean"]:
            n = max(n, 8)
        return n

    def seed(self):
        self.uid += 1
        return self.uid

    def cap(self):
        return self.r.choice(CAPS) if self.r.random() < self.o["frag"] else -1

    # ---- nodes
    def setup(self):
        o, r = self.o, self.r
        if o["base"]:
            self.a("base", o["base"])
        same_ip = o.get("same_ip") and r.random() < .5
        for k in range(o["pubs"]):
            nm = "p%d" % (k + 1)
            ip = "10.0.0.1" if same_ip else "10.0.0.%d" % (k + 1)
            self.ip[nm] = ip
            c = ["ip=" + ip, "node=%s" % (hex(0x11 + (k if not o.get("same_node") else 0)))]
            c.append("max=%d" % (o["maxp"] or r.choice([1, 2, 3, 4, 8]) if o["cfg_var"] or o["maxp"] else 8))
            if o.get("ports"):
                c.append("port=%d" % (7000 + (k if same_ip else 0)))
            if o["cfg_var"]:
                c += ["%s=%d" % (x, r.random() < .7) for x in ("ccb", "dcb", "ctl", "acb", "free")]
                if r.random() < .4:
                    c.append("lip=" + ip)
                if r.random() < .4:
                    c.append("mif=" + ip)
                if r.random() < .3 and not o.get("ports"):
                    c.append("port=%d" % (7000 + k))
                if r.random() < .2:
                    c[1] = "node=0"
            self.a("pub", nm, *c)
            self.pubs.append(nm)
        for k in range(o["subs"]):
            nm = "s%d" % (k + 1)
            self.ip[nm] = "10.0.1.%d" % (k + 1)
            c = ["ip=10.0.1.%d" % (k + 1), "node=%s" % hex(0x21 + k)]
            c.append("max=%d" % (o["maxs"] or r.choice([1, 2, 3, 4, 8]) if o["cfg_var"] or o["maxs"] else 8))
            if o["cfg_var"]:
                c += ["%s=%d" % (x, r.random() < .7) for x in ("ann", "cmp", "rdy", "alloc")]
                if r.random() < .4:
                    c.append("mif=10.0.1.%d" % (k + 1))
            au = o["auto"] if o["auto"] is not None else r.choice([0, 0, 0, 1, 2, 3])
            c.append("auto=%d" % au)
            self.a("sub", nm, *c)
            self.subs.append(nm)
        for nm in r.sample(self.pubs + self.subs, len(self.pubs) + len(self.subs)):
            self.a("act", nm)

    def announce(self, p):
        self.a("ann", p, 1000)
        self.a("tick", 1000)
        self.a("t", p)
        self.a("ann", p, 0)
        self.a("w", p, "M")

    def connect(self, p, subs=None):
        subs = subs or self.subs
        self.announce(p)
        for s in subs:
            self.a("netall", s)
            self.a("r", s, "M")
        for s in subs:
            self.a("w", s, "@" + p)
        for s in subs:
            self.a("r", p, "L")

    # ---- single steps
    def st_q(self):
        p = self.p()
        k = 1 if self.r.random() < .6 else self.r.randrange(2, 6)
        for _ in range(k):
            self.a("q", p, self.length(), self.seed())

    def st_qbad(self):
        p = self.p()
        x = self.r.randrange(3)
        if x == 0:
            self.a("q", p, self.ch(65313, 65314, 65400, 65535), self.seed())
        elif x == 1:
            self.a("qnull", p)
        else:
            self.a("q", p, self.length(), self.seed(), 1)

    def st_wm(self):
        p = self.p()
        for _ in range(self.r.choice([1, 1, 1, 2])):
            self.a("w", p, "M")

    def st_net(self):
        s = self.s()
        for _ in range(self.r.choice([1, 1, 2, 3])):
            x = self.r.random()
            if x < self.o["loss"]:
                self.a("net", s, "drop", self.r.choice([0, 0, 1, 2, 3]))
            elif x < self.o["loss"] + .08:
                self.a("net", s, "dup", self.r.choice([0, 1, 2]))
            else:
                self.a("net", s, "deliver", self.r.choice([0, 0, 0, 1, 2, 3]))
        if self.r.random() < .8:
            self.a("r", s, "M")

    def st_netall(self):
        s = self.s()
        self.a("netall", s)
        self.a("r", s, "M")

    def st_srm(self):
        self.a("r", self.s(), "M")

    def ref(self):
        return self.r.choice(["0", "0", "1", "2", "3"])

    def st_sw(self):
        self.a("w", self.s(), self.ref(), self.cap())

    def st_pr(self):
        p = self.p()
        self.a("r", p, self.ref(), self.cap())

    def st_pw(self):
        self.a("w", self.p(), self.ref(), self.cap())

    def st_sr(self):
        self.a("r", self.s(), self.ref(), self.cap())

    def st_flow(self):
        """let everything pending move on all connections"""
        for s in self.subs:
            for k in range(2):
                self.a("w", s, k, self.cap())
        for p in self.pubs:
            for k in range(len(self.subs)):
                self.a("r", p, k, self.cap())
                self.a("w", p, k, self.cap())
        for s in self.subs:
            for k in range(len(self.pubs)):
                self.a("r", s, k, self.cap())

    def st_acc(self):
        self.a("r", self.p(), "L")

    def st_t(self):
        n = self.r.choice(self.pubs + self.subs)
        if self.r.random() < .7:
            self.a("ticknext", n, self.ch(-1, 0, 0, 0, 1, 1000))
        self.a("t", n)

    def st_tick(self):
        self.a("tick", self.ch(0, 1, 10, 1000, 25000, 49999, 50000, 50001, 50000, 99999, 100000, 100001))

    def st_tall(self):
        for n in self.pubs + self.subs:
            self.a("t", n)

    def st_d(self):
        s = self.s()
        for _ in range(self.r.choice([1, 1, 3])):
            self.a("d", s, int(self.r.random() < .2))

    def st_ctl(self):
        s, p = self.s(), self.p()
        ln = self.r.choice([1, 2, 5, 14, 15, 100, 1000]) if self.r.random() < .8 else self.r.choice([0, 20000, 32700, 40000, 65000, 65395, 65396, 65300])
        if self.o["lens"] == "big" and self.r.random() < .6:
            ln = self.r.choice([10000, 20000, 30000, 40000, 65000, 65395, 60000])
        if self.r.random() < .5:
            if self.o.get("same_node"):
                return
            self.a("ctl", s, "n", "%x" % (0x11 + self.pubs.index(p)), ln, self.seed())
        else:
            self.a("ctl", s, "a", self.ip[p], self.o["port_of"](p) if "port_of" in self.o else 7000, ln, self.seed())

    def st_ctlbad(self):
        s = self.s()
        self.a(*self.ch(("ctlnull", s, "11"), ("ctl", s, "n", "7777", 5, 1), ("ctl", s, "a", "10.9.9.9", 7000, 5, 1)))

    def st_close(self):
        self.a("close", self.r.choice(self.pubs + self.subs), self.ch("0", "1", "=0", "=1", "0", "=77"))

    def st_connect(self):
        self.connect(self.p())

    def st_ann(self):
        self.a("ann", self.p(), self.ch(0, 1000, 50000, 100000, 1))

    def st_acb(self):
        self.a("acb", self.p(), self.ch(0, 1, 1, 1), self.ch(0, 1, 5, 100, 1000, 65312, 70000), self.seed())

    def st_thr(self):
        s = self.ch(0, 1, 2, 3, 5)
        self.a("thr", self.p(), s, self.r.randrange(0, s + 2))

    def st_deact(self):
        n = self.r.choice(self.pubs + self.subs)
        self.a("deact", n)
        if self.r.random() < .3:
            self.a("deact", n)
        if self.r.random() < .8:
            self.a("act", n)

    def st_act(self):
        self.a("act", self.r.choice(self.pubs + self.subs))

    def st_ud(self):
        self.a("ud", self.r.choice(self.pubs + self.subs))

    def st_ttl(self):
        self.a("ttl", self.p(), self.ch(0, 1, 2, 64, 255))

    def st_annret(self):
        self.a("annret", self.s(), self.ch(0, 1, 1))

    def st_ccb(self):
        self.a("ccb", self.p(), self.ch(0, 1, 1, 2))

    def st_wall(self):
        """publisher full turn: timeouts at the retransmission time and flow"""
        p = self.p()
        self.a("ticknext", p, self.ch(0, 0, 1))
        self.a("t", p)
        for k in range(len(self.subs)):
            self.a("w", p, k, self.cap())
        for s in self.subs:
            for k in range(len(self.pubs)):
                self.a("r", s, k, self.cap())

    def st_ackturn(self):
        s = self.s()
        self.a("ticknext", s, self.ch(0, 0, 1, -1))
        self.a("t", s)
        for k in range(len(self.pubs)):
            self.a("w", s, k, self.cap())
        for p in self.pubs:
            for k in range(len(self.subs)):
                self.a("r", p, k, self.cap())

    def st_fault(self):
        x = self.r.randrange(9)
        p, s = self.p(), self.s()
        if x == 0:
            self.a("fault", "sendmsg", 1, self.ch(11, 11, 105, 1, 90, 101))
            self.a("w", p, "M")
        elif x == 1:
            self.a("fault", "writev", 1, self.ch(11, 32, 104))
            self.a("w", *self.ch((p, self.ref()), (s, self.ref())))
        elif x == 2:
            self.a("fault", "readv", 1, self.ch(104, 110))
            self.a("r", *self.ch((p, self.ref()), (s, self.ref())))
        elif x == 3:
            self.a("fault", "recvfrom", self.ch(1, 2), self.ch(11, 105, 104))
            self.a("netall", s)
            self.a("r", s, "M")
        elif x == 4:
            self.announce(p)
            self.a("netall", s)
            self.a("fault", *self.ch(("socket", 1, 24), ("connect", 1, 111), ("connect", 1, 101), ("setsockopt", 1, 22), ("connect", 1, 115), ("connect", 1, 0)))
            self.a("r", s, "M")
            self.a("w", s, "@" + p)
            self.a("r", p, "L")
        elif x == 5:
            self.announce(p)
            self.a("netall", s)
            self.a("r", s, "M")
            self.a("w", s, "@" + p, -1, self.ch(111, 110, 113, 0))
            self.a("r", p, "L")
        elif x == 6:
            self.announce(p)
            self.a("netall", s)
            self.a("r", s, "M")
            self.a("fault", self.ch("getsockopt", "setsockopt"), 1, 22)
            self.a("w", s, "@" + p)
            self.a("r", p, "L")
        elif x == 7:
            self.announce(p)
            self.a("netall", s)
            self.a("r", s, "M")
            self.a("w", s, "@" + p)
            self.a("fault", *self.ch(("accept", 1, 24), ("accept", 1, 103), ("setsockopt", 1, 22), ("accept", 1, 11)))
            self.a("r", p, "L")
            self.a("r", p, "L")
        else:
            n = self.r.choice(self.pubs + self.subs)
            self.a("deact", n)
            self.a("fault", self.ch("socket", "bind", "listen", "getsockname", "setsockopt"), self.ch(1, 1, 2, 3), self.ch(22, 98, 24))
            self.a("act", n)
            self.a("act", n)

    def st_inj(self):
        s, p = self.s(), self.p()
        x = self.r.randrange(8)
        port = 7000
        if x == 0:
            self.a("inj", s, 5, 10, self.seed(), "tot=%d" % self.ch(1, 2, 8, 12, 14, 18, 19))
        elif x == 1:
            n = self.ch(1, 10, 100, 65312)
            self.a("inj", s, self.ch(0, 1, 2, 3, 50), n, self.seed(), "ip=" + self.ip[p], "port=%d" % port, "tot=%d" % (20 + n - self.ch(1, n)))
        elif x == 2:
            self.a("inj", s, 5, 0, 0, "tot=0")
        elif x == 3:
            self.a("inj", s, 0, self.ch(0, 1, 10), self.seed(), "ip=0.0.0.0", "src=10.0.9.9", "port=7000", "node=0x99")
        elif x == 4:
            self.a("inj", s, self.ch(1, 5), 10, self.seed(), "ip=10.0.9.9", "port=%d" % self.ch(7000, 9000), "node=0x11")
        elif x == 5:
            n = self.ch(0, 3, 50)
            self.a("inj", s, 0, n, self.seed(), "ip=" + self.ip[p], "port=%d" % port, "tot=%d" % (20 + n + self.ch(1, 7, 300)))
        elif x == 6:
            self.a("inj", s, 0, 65535, self.seed(), "ip=10.0.9.8", "port=9000", "tot=%d" % self.ch(20, 21, 65507, 1000))
        else:
            self.a("inj", s, self.r.randrange(1, 30), 10, self.seed(), "ip=" + self.ip[p], "port=7001", "node=0x11")
        self.a("netall", s)
        self.a("r", s, "M")
        if self.r.random() < .5:
            self.a("r", s, "M")

    W = dict(q=22, wm=18, net=22, netall=4, srm=2, sw=5, pr=5, pw=4, sr=5, flow=4, acc=2, t=5, tick=6, tall=3, d=6, ctl=3, wall=4, ackturn=4)
    RARE = dict(qbad=1, ctlbad=1, close=1, connect=2, ann=1, acb=1, thr=1, deact=1, act=.5, ud=1, ttl=.3, annret=1, ccb=1, fault=3, inj=3)

    def run(self):
        w = dict(self.W)
        if not self.o["clean"]:
            w.update(self.RARE)
        w.update(self.o["w"])
        names = [k for k in w if w[k] > 0]
        ws = [w[k] for k in names]
        for _ in range(self.o["ops"]):
            getattr(self, "st_" + self.r.choices(names, ws)[0])()

    def finish(self):
        if self.o["settle"]:
            self.a("settle")
        if self.o["end"]:
            ns = self.pubs + self.subs
            self.r.shuffle(ns)
            for n in ns:
                if self.r.random() < .5:
                    self.a("deact", n)
            for n in ns:
                self.a("del", n)

    def scenario(self):
        self.setup()
        for p in self.pubs:
            if self.r.random() < .93:
                self.connect(p)
        self.run()
        self.finish()
        return self.L


BASES = [0, 0, 0, 4294967296 * 1000000, 1700000000000000, 4294900000, 2147483000]


def mixed(r):
    o = dict(pubs=r.choice([1, 1, 2, 3]), subs=r.choice([1, 1, 2, 3]), lens=r.choice(["small", "small", "edge", "mid", "mix", "big"]),
             cfg_var=r.random() < .6, ops=r.randrange(30, 90), loss=r.choice([0, .1, .3, .6]), frag=r.choice([0, .3, .9]), base=r.choice(BASES),
             same_ip=True, same_node=r.random() < .2, ports=r.random() < .7)
    return Gen(r, **o).scenario()


def clean(r):
    o = dict(pubs=r.choice([1, 1, 2]), subs=r.choice([1, 2, 3]), lens=r.choice(["small", "small", "mid", "big", "edge"]), clean=True,
             ops=r.randrange(30, 80), loss=r.choice([0, .1, .3, .6]), frag=r.choice([0, .3, .9]), base=r.choice(BASES), settle=True, ports=True, same_ip=True,
             w=dict(close=.7, connect=1.5, thr=.5, ann=.3))
    return Gen(r, **o).scenario()



JUMPS = [(1 << 31) - 3, 1 << 31, (1 << 31) + 7, (1 << 32) - 2, 1 << 32, (1 << 32) + 1, 3 << 31, 1 << 62, (1 << 63) - 100, 1 << 63, (1 << 63) + (1 << 31)]
PIDBASES = [0, 0, 4294967293, 4294967296 - 20, 1 << 40, (1 << 63) - 5]


class SubRaw:
    """One or two real subscribers against scripted publishers: arbitrary packet numbers over multicast and TCP."""
    def __init__(self, r, **o):
        self.r, self.L, self.uid = r, [], r.randrange(1 << 20)
        self.o = dict(npub=r.choice([1, 1, 2, 3]), nsub=r.choice([1, 1, 1, 2]), ops=r.randrange(40, 110), lens=r.choice(["small", "small", "mix", "edge", "zero"]), frag=r.choice([0, .3, .9]),
                      base=r.choice(BASES), pidbase=r.choice(PIDBASES), jump=None, auto=None, bad=r.choice([0, 0, .5, 1]), churn=r.choice([0, .5, 1]), maxs=None, w={})
        self.o.update(o)

    a = Gen.a
    ch = Gen.ch

    def seed(self):
        self.uid += 1
        return self.uid

    def ln(self):
        k = self.o["lens"]
        if k == "zero":
            return self.r.choice([0, 0, 1, 2])
        if k == "small":
            return self.r.choice(LENS_SMALL)
        if k == "edge":
            return self.r.choice(LENS_EDGE)
        return self.r.choice(LENS_SMALL + LENS_SMALL + LENS_EDGE)

    def cap(self):
        return self.r.choice(CAPS) if self.r.random() < self.o["frag"] else -1

    def setup(self):
        r, o = self.r, self.o
        if o["base"]:
            self.a("base", o["base"])
        self.gap = 0
        if o["jump"]:
            # packet numbers from some point on lie far away from the ones before it
            self.gap = r.randrange(3, 25)
            self.a("pidbase", r.choice([0, 0, 5, 1 << 40]))
            self.a("pidjump", self.gap - 1, r.choice(JUMPS))
        elif o["pidbase"]:
            self.a("pidbase", o["pidbase"])
        style = r.choice(["ports", "ips", "both", "both"])
        samenode = r.random() < .4
        self.P = []
        for k in range(o["npub"]):
            ip = "10.0.0.5" if style == "ports" else "10.0.0.%d" % (5 + k)
            port = 7000 if style == "ips" else 7000 + k
            self.P.append(dict(n="r%d" % (k + 1), ip=ip, port=port, node=hex(0x31 + (0 if samenode else k)), nxt=r.choice([1, 1, 1, 2, 7, 100]), hist=[], zero=r.random() < .4))
            self.a("raw", "r%d" % (k + 1), "ip=" + ip, "port=%d" % port)
        self.S = []
        for k in range(o["nsub"]):
            c = ["ip=10.0.1.%d" % (k + 1), "node=%s" % hex(0x21 + k), "max=%d" % (o["maxs"] or r.choice([1, 2, 3, 4, 8])), "auto=%d" % (r.choice([0, 0, 0, 1, 2, 3]) if o["auto"] is None else o["auto"])]
            if r.random() < .4:
                c += ["%s=%d" % (x, r.random() < .6) for x in ("ann", "cmp", "rdy", "alloc")]
            self.a("sub", "s%d" % (k + 1), *c)
            self.S.append("s%d" % (k + 1))
            self.a("act", "s%d" % (k + 1))

    def inj(self, s, p, pid, ln, seed, **kw):
        d = dict(ip="0.0.0.0" if p["zero"] else p["ip"], src=p["ip"], port=p["port"], node=p["node"])
        d.update(kw)
        self.a("inj", s, pid, ln, seed, *["%s=%s" % x for x in d.items()])

    def announce(self, s, p):
        self.inj(s, p, 0, self.r.choice([0, 5, 30]), self.seed())
        self.a("netall", s)
        self.a("r", s, "M")

    def connect(self, s, p):
        self.announce(s, p)
        self.a("w", s, "@" + p["n"])

    def pid(self, p):
        r = self.r
        x = r.random()
        if x < .5:
            q = p["nxt"]
            p["nxt"] += 1
        elif x < .7:
            q = p["nxt"] + r.randrange(1, 6)
            p["nxt"] = max(p["nxt"], q - r.randrange(0, 4))
        elif x < .9 and p["hist"]:
            q = r.choice(p["hist"][-12:])
        else:
            q = max(1, p["nxt"] - r.randrange(1, 8))
        return q + 1 if q == self.gap else q

    def payload(self, p, pid):
        for h in p["hist"]:
            pass
        d = p.setdefault("pl", {})
        if pid not in d:
            d[pid] = (self.ln(), self.seed())
        p["hist"].append(pid)
        return d[pid]

    def step(self):
        r = self.r
        s, p = r.choice(self.S), r.choice(self.P)
        x = r.random() * (8.6 + self.o["bad"] + self.o["churn"])
        if x < 2.6:
            for _ in range(r.choice([1, 1, 2, 4, 7])):
                p = r.choice(self.P) if r.random() < .4 else p
                q = self.pid(p)
                self.inj(s, p, q, *self.payload(p, q))
            y = r.random()
            if y < .7:
                self.a("netall", s)
            else:
                for _ in range(4):
                    self.a("net", s, self.ch("deliver", "deliver", "dup", "drop"), r.randrange(6))
            if r.random() < .9:
                self.a("r", s, "M")
        elif x < 4.2:
            for _ in range(r.choice([1, 1, 2, 5])):
                q = self.pid(p)
                ln, sd = self.payload(p, q)
                self.a("rpkt", p["n"], q, ln, sd, "c=%d" % r.choice([0, 0, 0, 1]), "node=" + p["node"])
            for _ in range(r.choice([0, 1, 1, 3])):
                self.a("r", s, "@" + p["n"], self.cap())
        elif x < 4.9:
            self.a("r", s, r.choice("0012"), self.cap())
        elif x < 5.9:
            if r.random() < .8:
                self.a("ticknext", s, self.ch(-1, 0, 0, 1))
            self.a("t", s)
            if r.random() < .7:
                for k in range(self.o["npub"]):
                    self.a("w", s, k, self.cap())
        elif x < 6.5:
            self.a("w", s, r.choice("0012"), self.cap())
        elif x < 7.2:
            self.a("tick", self.ch(1, 1000, 10000, 25000, 49999, 50000, 50001))
        elif x < 7.9:
            for _ in range(r.choice([1, 2, 5])):
                if not self.o.get("nodisp") or r.random() < .2:
                    self.a("d", s, int(r.random() < .2))
        elif x < 8.1:
            self.a("ctl", s, "a", p["ip"], p["port"], self.ch(1, 3, 14, 100, 65395, 30000), self.seed())
        elif x < 8.5:
            self.announce(s, p)
            if r.random() < .8:
                self.a("w", s, "@" + p["n"])
        elif x < 8.6:
            self.a("ud", s)
        elif x < 8.6 + self.o["churn"]:
            y = r.randrange(6)
            if y == 0:
                self.a("rclose", p["n"], 0)
                self.a("r", s, "@" + p["n"])
            elif y == 1:
                self.a("close", s, self.ch("0", "1", "=0", "=1", "=9"))
            elif y == 2:
                self.a("rlisten", p["n"], self.ch(0, 1))
                self.connect(s, p)
                self.a("rlisten", p["n"], 1)
            elif y == 3:
                if r.random() < .4:     # the publisher starts over, with smaller numbers
                    self.a("close", s, "@" + p["n"])
                    p["nxt"], p["hist"], p["pl"] = r.choice([1, 1, 2, 5]), [], {}
                self.connect(s, p)
            elif y == 4 and r.random() < .4:
                self.a("deact", s)
                self.a("act", s)
                self.connect(s, p)
            else:
                self.a("fault", *self.ch(("readv", 1, 104), ("writev", 1, 32), ("writev", 1, 11), ("recvfrom", 1, 11)))
                self.a("r" if r.random() < .5 else "w", s, "@" + p["n"])
        else:
            y = r.randrange(8)
            q = self.pid(p)
            if y == 0:
                self.inj(s, p, q, 10, self.seed(), tot=self.ch(1, 8, 12, 14, 19, 20, 25, 29))
            elif y == 1:
                n = self.ch(1, 2, 500, 65312, 65535)
                self.inj(s, p, q, n, self.seed(), tot=20 + min(n, 65487) - self.ch(1, min(n, 65487)))
            elif y == 2:
                n = self.ch(0, 1, 7)
                self.inj(s, p, q, *self.payload(p, q), tot=20 + self.payload(p, q)[0] + (n if self.payload(p, q)[0] < 60000 else 0))
            elif y == 3:
                self.a("inj", s, q, 5, self.seed(), "ip=10.0.0.99", "port=%d" % p["port"], "node=" + p["node"])
            elif y == 4:
                self.a("inj", s, q, 5, self.seed(), "ip=" + p["ip"], "port=%d" % (p["port"] + 50), "node=" + p["node"])
            elif y == 5:
                self.a("rbyte", p["n"], self.ch(0, 2, 3, 4, 255))
                self.a("r", s, "@" + p["n"], self.cap())
            elif y == 6:
                self.inj(s, p, 0, self.ch(1, 50, 65535), self.seed(), tot=self.ch(20, 3, 19))
            else:
                self.a("rpkt", p["n"], q, *self.payload(p, q))
                self.a("rbyte", p["n"], self.ch(0, 7))
                q2 = q + 2 if q + 1 == self.gap else q + 1
                self.a("rpkt", p["n"], q2, *self.payload(p, q2))
                for _ in range(3):
                    self.a("r", s, "@" + p["n"], self.cap())
            self.a("netall", s)
            self.a("r", s, "M")
            if r.random() < .6:
                self.a("r", s, "M")

    def scenario(self):
        self.setup()
        for s in self.S:
            for p in self.P:
                if self.r.random() < .93:
                    self.connect(s, p)
        for _ in range(self.o["ops"]):
            self.step()
        for s in self.S:
            if self.r.random() < .5:
                self.a("deact", s)
            self.a("del", s)
        return self.L


class PubRaw:
    """One real publisher against scripted subscribers: arbitrary acknowledgements, control messages and garbage."""
    def __init__(self, r, **o):
        self.r, self.L, self.uid = r, [], r.randrange(1 << 20)
        self.o = dict(nsub=r.choice([1, 1, 2, 3, 4]), ops=r.randrange(40, 120), lens=r.choice(["small", "small", "mid", "big", "edge", "edge"]), frag=r.choice([0, .3, .9]),
                      base=r.choice(BASES), bad=r.choice([0, 0, .3]), churn=r.choice([0, .4, 1]), maxp=r.choice([1, 2, 3, 5]), thr=r.choice([0, 0, 1]), ann=r.choice([0, 0, 1]), fault=r.choice([0, .5]),
                      ctl=.5, act=0, cfg=r.random() < .5, clean=False)
        self.o.update(o)
        self.n = 0
        self.ncon = 0

    a = Gen.a
    ch = Gen.ch
    length = Gen.length

    def seed(self):
        self.uid += 1
        return self.uid

    def cap(self):
        if getattr(self, "wraps", False):
            return self.r.choice([-2, -2, -2, -3, -3, -4, -5, -1, 30000, 40000])
        return self.r.choice(CAPS) if self.r.random() < self.o["frag"] else -1

    def q(self):
        n = self.length()
        self.a("q", "p1", n, self.seed())
        self.n += 1

    def connect(self, k=None):
        k = self.r.randrange(self.o["nsub"]) if k is None else k
        self.a("rconn", "r%d" % (k + 1), "p1")
        if self.r.random() < .9:
            self.a("r", "p1", "L")
        self.ncon += 1

    def rs(self):
        return "r%d" % (1 + self.r.randrange(self.o["nsub"]))

    def ack(self):
        r, n = self.r, max(1, self.n)
        lo = max(1, n - r.randrange(0, 8))
        x = r.random()
        hi = lo if x < .5 else lo + r.randrange(0, 6) if x < .9 else lo - 1
        if r.random() < .05:
            lo, hi = 1, n + 5
        self.a("rack", self.rs(), lo, hi)

    def step(self):
        r, o = self.r, self.o
        W = dict(q=3, wm=2, ack=1.8, rd=2, wr=1.5, t=1.6, tick=.8, ctl=o["ctl"], conn=.4 + o["churn"], churn=o["churn"], bad=o["bad"], thr=o["thr"], ann=o["ann"], fault=o["fault"], act=o["act"], misc=.15)
        k = r.choices(list(W), list(W.values()))[0]
        if k == "q":
            for _ in range(r.choice([1, 1, 2, 5])):
                self.q()
        elif k == "wm":
            self.a("w", "p1", "M")
        elif k == "ack":
            for _ in range(r.choice([1, 1, 2, 4])):
                self.ack()
        elif k == "rd":
            for _ in range(r.choice([1, 1, 2, 4])):
                self.a("r", "p1", r.choice("00123"), self.cap())
        elif k == "wr":
            for _ in range(r.choice([1, 1, 2])):
                self.a("w", "p1", r.choice("00123"), self.cap())
        elif k == "t":
            if r.random() < .8:
                self.a("ticknext", "p1", self.ch(-1, 0, 0, 0, 1, 30))
            self.a("t", "p1")
        elif k == "tick":
            self.a("tick", self.ch(1, 10, 1000, 50000, 99999, 100000, 100001))
        elif k == "ctl":
            self.a("rctl", self.rs(), self.ch(1, 2, 14, 15, 100, 5000, 65395, 0, 40000), self.seed())
        elif k == "conn":
            self.connect()
        elif k == "churn":
            y = r.randrange(5)
            if y == 0:
                self.a("rclose", self.rs(), 0)
                if r.random() < .8:
                    self.a("r", "p1", r.choice("0123"))
            elif y == 1:
                self.a("close", "p1", self.ch("0", "1", "2", "=0", "=1", "=30"))
            elif y == 2:
                self.a("ccb", "p1", self.ch(0, 1, 1, 2))
            elif y == 3:
                # a half-read command, then the connection ends and the slot is used again
                z = self.rs()
                self.a(*self.ch(("rack", z, 1, max(1, self.n)), ("rctl", z, 50, self.seed())))
                self.a("r", "p1", "@" + z, self.ch(1, 2, 3, 9, 16))
                self.a("rclose", z, 0)
                self.a("r", "p1", "@" + z)
                self.a("r", "p1", "@" + z)
                self.connect()
                self.a("rctl", z, 5, self.seed())
            else:
                # half-written retransmission, then the connection ends and the slot is used again
                z = self.rs()
                self.a("ticknext", "p1", 0)
                self.a("t", "p1")
                self.a("w", "p1", "@" + z, self.ch(1, 5, 21, 22, 40))
                self.a("close", "p1", "@" + z)
                self.connect()
                self.q()
                self.a("w", "p1", "M")
        elif k == "bad":
            self.a("rbyte", self.rs(), self.ch(0, 1, 4, 200))
        elif k == "thr":
            s = self.ch(0, 1, 2, 3, 4, 6)
            self.a("thr", "p1", s, r.randrange(0, s + 2) if r.random() < .9 else s + 3)
            if r.random() < .1:
                s = r.choice([256, 257, 65536, 65537, 65538, 1 << 24, (1 << 31) - 1])
                self.a("thr", "p1", s, r.choice([0, 1, s - 1, s]))
        elif k == "ann":
            y = r.randrange(3)
            if y == 0:
                self.a("ann", "p1", self.ch(0, 1, 1000, 50000, 100000, 250000))
            elif y == 1:
                self.a("acb", "p1", self.ch(0, 1, 1), self.ch(0, 1, 5, 300, 65311, 65312, 65313), self.seed())
            else:
                self.a("ticknext", "p1", 0)
                self.a("t", "p1")
        elif k == "fault":
            y = r.randrange(5)
            if y <= 1:
                self.a("fault", "sendmsg", self.ch(1, 1, 2), self.ch(11, 11, 105, 90, 1, 101))
                self.a("w", "p1", "M")
            elif y == 2:
                self.a("fault", "writev", 1, self.ch(11, 32, 104))
                self.a("w", "p1", r.choice("0012"))
            elif y == 3:
                self.a("fault", "readv", 1, self.ch(104, 110))
                self.a("r", "p1", r.choice("0012"))
            else:
                self.a("fault", *self.ch(("accept", 1, 24), ("accept", 1, 103), ("setsockopt", 1, 22)))
                self.connect()
                self.a("r", "p1", "L")
        elif k == "act":
            y = r.randrange(4)
            if y == 0:
                self.a("deact", "p1")
                for _ in range(r.randrange(3)):
                    self.q()
                if r.random() < .3:
                    self.a("w", "p1", "M")
                if r.random() < .7:
                    self.a("fault", self.ch("socket", "bind", "listen", "getsockname", "setsockopt"), self.ch(1, 1, 2, 3), self.ch(22, 98, 24))
                self.a("act", "p1")
                self.a("act", "p1")
            elif y == 1:
                self.a("act", "p1")
            else:
                self.a("deact", "p1")
                self.a("act", "p1")
        else:
            y = r.randrange(5)
            if y == 0:
                self.a("ud", "p1")
            elif y == 1:
                self.a("ttl", "p1", self.ch(0, 1, 64))
            elif y == 2:
                self.a("qnull", "p1")
            elif y == 3:
                self.a("q", "p1", self.ch(65313, 65535), self.seed())
            else:
                self.a("q", "p1", self.ch(0, 5, 65312), self.seed(), 1)

    def scenario(self):
        r, o = self.r, self.o
        if o["base"]:
            self.a("base", o["base"])
        c = ["ip=10.0.0.1", "node=0x11", "max=%d" % o["maxp"]]
        if o["cfg"]:
            c += ["%s=%d" % (x, r.random() < o.get("ctlcb" if x == "ctl" else "", .6)) for x in ("ccb", "dcb", "ctl", "acb", "free")]
            if r.random() < .5:
                c.append("lip=10.0.0.1")
            if r.random() < .5:
                c.append("port=7000")
            if r.random() < .3:
                c.append("mif=10.0.0.1")
            if r.random() < .2:
                c += ["grp=239.9.8.7", "gport=%d" % self.ch(1, 65535, 5000)]
        self.a("pub", "p1", *c)
        for k in range(o["nsub"]):
            self.a("raw", "r%d" % (k + 1), "ip=10.0.1.%d" % (k + 1 if r.random() < .8 else 1))
        if r.random() < .2:
            self.q()
        self.a("act", "p1")
        for k in range(o["nsub"]):
            if r.random() < .9:
                self.connect(k)
        for _ in range(o["ops"]):
            self.step()
        if r.random() < .6:
            self.a("deact", "p1")
        self.a("del", "p1")
        return self.L


def subraw(r):
    return SubRaw(r).scenario()


def subacks(r):
    """many gaps, many intervals, acknowledgement times"""
    return SubRaw(r, lens="small", bad=0, churn=r.choice([0, .2]), ops=r.randrange(60, 140)).scenario()


def submulti(r):
    return SubRaw(r, npub=r.choice([2, 3, 4]), maxs=r.choice([3, 4, 8])).scenario()


def subbad(r):
    return SubRaw(r, bad=3, churn=.3).scenario()


def subchurn(r):
    return SubRaw(r, churn=3, maxs=r.choice([1, 2, 3])).scenario()


def subframe(r):
    return SubRaw(r, frag=1, lens=r.choice(["small", "edge", "mix"]), bad=r.choice([0, .5])).scenario()


def pubraw(r):
    return PubRaw(r).scenario()


def pubmulti(r):
    return PubRaw(r, nsub=r.choice([2, 3, 4]), maxp=r.choice([3, 4, 5])).scenario()


def pubthr(r):
    return PubRaw(r, thr=2.5, churn=r.choice([0, .5]), lens="small", ann=r.choice([0, .5])).scenario()


def pubann(r):
    return PubRaw(r, ann=3, thr=r.choice([0, .5]), fault=.5).scenario()


def pubchurn(r):
    return PubRaw(r, churn=2.5, ctl=1).scenario()


def publife(r):
    return PubRaw(r, act=1.5, churn=.7, cfg=True).scenario()


def pubfull(r):
    """full outgoing queues"""
    return PubRaw(r, lens="big", nsub=r.choice([1, 2, 3]), maxp=4, frag=.8, thr=0).scenario()


def pubframe(r):
    return PubRaw(r, frag=1, ctl=2.5, bad=r.choice([0, .3])).scenario()


def subjump(r):
    """packet numbers that are far apart"""
    return SubRaw(r, jump=True, lens="small", bad=0, churn=r.choice([0, 0, .3]), frag=r.choice([0, .5])).scenario()


def subready(r):
    """many packets waiting for the application while connections come and go"""
    return SubRaw(r, auto=0, churn=2.5, bad=0, npub=r.choice([1, 1, 2]), maxs=r.choice([1, 2]), lens="small", ops=r.randrange(50, 120), nodisp=True).scenario()


def pubctl(r):
    """control messages and acknowledgements in one read, with and without a callback"""
    return PubRaw(r, ctl=3, cfg=True, ctlcb=.4, frag=r.choice([0, .3]), lens="small", churn=r.choice([0, .3])).scenario()


CAP = 65399


def pubexact(r):
    """retransmissions that exactly fit, or miss by one byte"""
    g = PubRaw(r, nsub=1, maxp=2, cfg=False)
    g.a("pub", "p1", "ip=10.0.0.1", "node=0x11", "max=2")
    g.a("raw", "r1", "ip=10.0.1.1")
    g.a("act", "p1")
    g.connect(0)
    g.a("r", "p1", "L")

    def q(n):
        g.a("q", "p1", n, g.seed())
        g.n += 1
    room = CAP
    for _ in range(r.randrange(3, 9)):
        left = room
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            n = r.randrange(0, 30000)
            if left - 21 - n > 200 and left - 21 - n - 21 - 65312 < 0:
                q(n)
                left -= 21 + n
        d = r.choice([-1, 0, 0, 0, 1, 1, 2])
        n = left + d - 21
        if 0 <= n <= 65312:
            q(n)
        else:
            while left > 66000 - 21:
                left -= 30021
                q(30000)
            n = left + d - 21
            while n > 65312:
                q(1000)
                n -= 1021
            if n >= 0:
                q(n)
        if r.random() < .4:
            q(r.randrange(0, 20))
        for _ in range(2):
            g.a("w", "p1", "M")
        g.a("ticknext", "p1", 0)
        g.a("t", "p1")
        if r.random() < .3:
            g.a("tick", 100000)
            g.a("t", "p1")
        # make a known amount of room in the full queue, or empty it
        if r.random() < .5:
            for _ in range(4):
                g.a("w", "p1", "0", -1)
            g.a("tick", 100000)
            g.a("t", "p1")
            for _ in range(3):
                g.a("w", "p1", "0", -1)
            g.a("rack", "r1", 1, g.n)
            g.a("r", "p1", "0")
            room = CAP
        else:
            c = r.choice([21, 22, 30, 100, 5000, 40000, r.randrange(21, 60000)])
            g.a("w", "p1", "0", c)
            room = c        # if it was full
    for _ in range(3):
        g.a("w", "p1", "0")
    g.a("del", "p1")
    return g.L


def subexact(r):
    """control messages and acknowledgements that exactly fit, or miss by one byte"""
    g = SubRaw(r, npub=1, nsub=1, lens="zero", bad=0, churn=0, auto=r.choice([0, 1]), base=0, maxs=2)
    g.setup()
    s, p = "s1", g.P[0]
    g.connect(s, p)
    q = 10
    for _ in range(r.randrange(3, 8)):
        # fill the empty queue with control messages; one more byte than the message must be free
        left = CAP
        for _ in range(r.choice([0, 0, 1, 3])):
            n = r.randrange(1, 20000)
            if left - n - 3 > 100:
                g.a("ctl", s, "a", p["ip"], p["port"], n, g.seed())
                left -= n + 3
        d = r.choice([-1, 0, 0, 1, 1, 2])
        n = left - 4 + d
        g.a("ctl", s, "a", p["ip"], p["port"], min(n, 65535), g.seed())
        if d > 0 or n > 65535:
            g.a("ctl", s, "a", p["ip"], p["port"], min(n - d, 65395), g.seed())
        # pending CAP - 1; make room for m acknowledgements, more or less
        m = r.choice([0, 1, 2, 3, 7])
        c = 17 * m + r.choice([-2, -1, -1, 0, 0, 1])
        if c > 0:
            g.a("w", s, "0", c)
        for _ in range(m + r.choice([0, 1, 2])):
            g.inj(s, p, q, *g.payload(p, q))
            q += r.choice([1, 2, 2, 2, 3])
        g.a("netall", s)
        for _ in range(2):
            g.a("r", s, "M")
        g.a("ticknext", s, 0)
        g.a("t", s)
        if r.random() < .5:
            g.a("w", s, "0", r.choice([1, 16, 17, 18, 33, 34, 35]))
            g.a("ticknext", s, 0)
            g.a("t", s)
            g.a("ctl", s, "a", p["ip"], p["port"], r.choice([1, 12, 13, 14, 30]), g.seed())
        for _ in range(3):
            g.a("w", s, "0", -1)
        g.a("ticknext", s, 0)
        g.a("t", s)
        for _ in range(2):
            g.a("w", s, "0", -1)
        if r.random() < .5:
            # packets over the connection, of which the longest fill the empty read buffer
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                g.a("rpkt", p["n"], q, r.randrange(0, 40), g.seed(), "c=0")
                q += 1
                g.a("r", s, "0")
            n = r.choice([65375, 65376, 65377, 65377, 65378, 65378, 65378])
            g.a("rpkt", p["n"], q, n, g.seed(), "c=0")
            q += 1
            left = n + 21
            for _ in range(r.choice([0, 0, 1, 3])):
                k = r.choice([1, 2, 20, 21, 22, 30000, left - 1, left - 2, r.randrange(1, max(2, left))])
                if 0 < k < left:
                    g.a("r", s, "0", k)
                    left -= k
            if r.random() < .3:
                g.a("rpkt", p["n"], q, r.randrange(0, 40), g.seed(), "c=0")
                q += 1
            for _ in range(3):
                g.a("r", s, "0")
            while r.random() < .6:
                g.a("d", s, 0)
    g.a("del", s)
    return g.L


def pubowe(r):
    """several subscribers that owe different packets, sent at different times: acknowledgements of arbitrary subsets, stalled
    connections, late subscribers and subscribers that go away, with the timeouts queried throughout"""
    n = r.choice([2, 3, 3, 4, 5, 6])
    g = PubRaw(r, nsub=n, maxp=n + r.choice([0, 1, 2]), lens="small", base=0, cfg=r.random() < .3, ann=0, thr=0, frag=0, bad=0)
    L0 = ["ip=10.0.0.1", "node=0x11", "max=%d" % g.o["maxp"]]
    g.a("pub", "p1", *L0)
    for k in range(n):
        g.a("raw", "r%d" % (k + 1), "ip=10.0.1.%d" % (k + 1))
    g.a("act", "p1")
    up, late = [], list(range(1, n + 1))
    r.shuffle(late)
    first = r.randrange(1, n + 1)

    def join():
        k = late.pop()
        g.a("rconn", "r%d" % k, "p1")
        g.a("r", "p1", "L")
        up.append(k)

    for _ in range(first):
        join()
    stall = r.random() < .25
    for _ in range(r.randrange(4, 12)):
        for _ in range(r.randrange(1, 5)):
            if stall and r.random() < .3:
                g.a("q", "p1", r.choice([30000, 40000, 65312]), g.seed())
                g.n += 1
            else:
                g.q()
            if r.random() < .8:
                g.a("w", "p1", "M")
            g.a("tick", r.choice([0, 1, 1000, 20000, 30000, 50000]))
        if late and r.random() < .3:
            join()
        lo = max(1, g.n - 6)
        for k in up:
            y = r.random()
            if y < .3:          # everything
                g.a("rack", "r%d" % k, lo, g.n)
            elif y < .65:       # some of it
                for i in range(lo, g.n + 1):
                    if r.random() < .5:
                        g.a("rack", "r%d" % k, i, i)
            elif y < .75:       # everything but the newest or the oldest
                g.a("rack", "r%d" % k, lo + r.choice([0, 1]), max(lo, g.n - r.choice([0, 1])))
            if r.random() < .8:
                g.a("r", "p1", "@r%d" % k)
        if up and r.random() < .12:
            k = r.choice(up)
            up.remove(k)
            g.a("rclose", "r%d" % k, 0) if r.random() < .5 else g.a("close", "p1", "@r%d" % k)
            g.a("r", "p1", "@r%d" % k)
            if r.random() < .7:
                late.append(k)
        if r.random() < .6:
            g.a("ticknext", "p1", r.choice([0, 0, 1, -1]))
            g.a("t", "p1")
        if r.random() < .5:
            for k in up:
                if not stall or r.random() < .6:
                    g.a("w", "p1", "@r%d" % k)
    g.a("del", "p1")
    return g.L


def subowe(r):
    """several publishers whose packets arrive at different times, with gaps, over multicast and TCP; acknowledgements go out
    for some of them at a time, some connections are stalled, some publishers come late or go away"""
    n = r.choice([2, 3, 3, 4, 5, 6])
    g = SubRaw(r, npub=n, nsub=1, lens=r.choice(["zero", "small"]), bad=0, churn=0, auto=r.choice([0, 0, 1]), base=0, pidbase=0, maxs=n + r.choice([0, 1]), frag=0)
    g.setup()
    s = "s1"
    late = list(g.P)
    r.shuffle(late)
    up = []

    def join():
        p = late.pop()
        g.connect(s, p)
        p["q"] = r.choice([10, 10, 50])
        up.append(p)

    for _ in range(r.randrange(1, n + 1)):
        join()
    stall = set()
    for _ in range(r.randrange(5, 14)):
        for _ in range(r.randrange(1, 4)):
            p = r.choice(up) if up else None
            if p is None:
                break
            for _ in range(r.choice([1, 1, 2, 3])):
                p["q"] = max(1, p["q"] + r.choice([1, 1, 2, 3, -1, 0]))
                if r.random() < .75:
                    g.inj(s, p, p["q"], *g.payload(p, p["q"]))
                else:
                    ln, sd = g.payload(p, p["q"])
                    g.a("rpkt", p["n"], p["q"], ln, sd, "c=0", "node=" + p["node"])
                    g.a("r", s, "@" + p["n"], -1)
            g.a("netall", s)
            g.a("r", s, "M")
            g.a("tick", r.choice([0, 1, 100, 3000, 9000, 20000, 49999, 50000]))
        if late and r.random() < .35:
            join()
        if up and r.random() < .2:
            p = r.choice(up)
            if p["n"] not in stall and r.random() < .5:
                stall.add(p["n"])
                for c in (65395, 65300, 60000):
                    g.a("ctl", s, "a", p["ip"], p["port"], c, g.seed())
            else:
                stall.discard(p["n"])
                for _ in range(3):
                    g.a("w", s, "@" + p["n"], -1)
        if up and r.random() < .12:
            p = r.choice(up)
            up.remove(p)
            stall.discard(p["n"])
            if r.random() < .5:
                g.a("rclose", p["n"], 0)
                g.a("r", s, "@" + p["n"])
            else:
                g.a("close", s, "@" + p["n"])
            if r.random() < .7:
                p["hist"], p["pl"] = [], {}
                late.append(p)
        if r.random() < .7:
            g.a("ticknext", s, r.choice([0, 0, 0, 1, -1]))
            g.a("t", s)
        for p in up:
            if p["n"] not in stall and r.random() < .5:
                g.a("w", s, "@" + p["n"], -1)
        while r.random() < .4:
            g.a("d", s, 0)
    g.a("del", s)
    return g.L


WILDNUM = [0, 1, 2, 3, 255, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, 1 << 63, (1 << 63) - 1, (1 << 64) - 2, (1 << 64) - 1]


def pubwild(r):
    """subscribers that break the protocol, next to some that do not: acknowledgements of any numbers, commands that are too
    long or unknown, ends in the middle of a command"""
    n = r.choice([1, 2, 2, 3, 4])
    g = PubRaw(r, nsub=n, maxp=n + r.choice([0, 0, 1]), lens=r.choice(["small", "small", "mid"]), base=0, cfg=r.random() < .4, ann=0, thr=0, frag=r.choice([0, .4]), bad=0)
    pb = r.choice(PIDBASES)
    if pb:
        g.a("pidbase", pb)
    L0 = ["ip=10.0.0.1", "node=0x11", "max=%d" % g.o["maxp"]]
    if g.o["cfg"]:
        L0 += ["%s=%d" % (x, r.random() < .6) for x in ("ccb", "dcb", "ctl", "acb", "free")]
    g.a("pub", "p1", *L0)
    for k in range(n):
        g.a("raw", "r%d" % (k + 1), "ip=10.0.1.%d" % (k + 1))
    g.a("act", "p1")
    if r.random() < .3:
        s = r.choice([1, 2, 4])
        g.a("thr", "p1", s, r.randrange(0, s))
    for k in range(n):
        g.connect(k)
    wild = set(range(1, n + 1)) if r.random() < .2 else set(r.sample(range(1, n + 1), r.randrange(1, max(2, n))))
    for _ in range(r.randrange(8, 25)):
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            g.q()
            if r.random() < .9:
                g.a("w", "p1", "M")
        for k in range(1, n + 1):
            z = "r%d" % k
            if k not in wild:
                y = r.random()
                if y < .5 and g.n:
                    lo = max(1, g.n - r.randrange(6))
                    g.a("rack", z, lo, g.n)
                elif y < .7:
                    g.a("rctl", z, g.ch(1, 2, 14, 100), g.seed())
                g.a("r", "p1", "@" + z, g.cap())
                continue
            y = r.random()
            if y < .45:
                near = [pb, pb + 1, pb + max(1, g.n - 2), pb + g.n, pb + g.n + 1]
                lo, hi = r.choice(near + WILDNUM), r.choice(near + WILDNUM)
                g.a("rackw", z, lo, hi)
                if r.random() < .3:
                    g.a("rackw", z, lo, hi)
            elif y < .55:
                g.a("rctl", z, g.ch(65395, 65396, 65396, 65397, 65398, 65535), g.seed())
                for _ in range(r.randrange(3)):
                    g.a("r", "p1", "@" + z, g.ch(1, 2, 3, 4, 30000, 65398, 65399))
            elif y < .65:
                g.a("rctl", z, 0, 0)
            elif y < .75:
                if r.random() < .5:
                    g.a("rctl", z, 5, g.seed())
                g.a("rbyte", z, g.ch(0, 1, 4, 5, 7, 128, 255))
                if r.random() < .5:
                    g.a("rack", z, 1, g.n)
            elif y < .85:
                g.a("rbyte", z, *g.ch((2,), (2, 1, 0), (3,), (3, 200), (3, 255, 255), (3, 5, 0, 1, 2), (3, 0x75, 0xff)))
                if r.random() < .5:
                    g.a("rclose", z, 0)
            elif y < .92:
                g.a("rclose", z, 0)
            else:
                g.connect(k - 1)
            if r.random() < .9:
                g.a("r", "p1", "@" + z, g.cap())
                if r.random() < .5:
                    g.a("r", "p1", "@" + z)
            if r.random() < .4:
                g.connect(k - 1)
        if r.random() < .4:
            g.a("ticknext", "p1", r.choice([0, 0, 1, -1]))
            g.a("t", "p1")
        if r.random() < .5:
            g.a("w", "p1", "@r%d" % r.randrange(1, n + 1), g.cap())
        if r.random() < .1:
            g.a("thr", "p1", 3, 1)
    if r.random() < .7:
        g.a("del", "p1")
    return g.L


def subwild(r):
    """publishers that break the protocol, next to some that do not: packets that are too long, from far away or cut off,
    unknown commands, datagrams of any content"""
    n = r.choice([1, 2, 2, 3])
    g = SubRaw(r, npub=n, nsub=1, lens=r.choice(["zero", "small"]), bad=0, churn=0, auto=r.choice([0, 0, 1]), base=0, maxs=n + r.choice([0, 1]), frag=r.choice([0, .4]))
    g.setup()
    s = "s1"
    for p in g.P:
        g.connect(s, p)
    wild = [p for p in g.P if r.random() < .6] or [g.P[0]]
    for _ in range(r.randrange(10, 28)):
        for p in g.P:
            if p not in wild or r.random() < .4:
                for _ in range(r.choice([0, 1, 2])):
                    q = g.pid(p)
                    if r.random() < .7:
                        g.inj(s, p, q, *g.payload(p, q))
                    else:
                        g.a("rpkt", p["n"], q, *g.payload(p, q), "c=0", "node=" + p["node"])
                        g.a("r", s, "@" + p["n"], g.cap())
                continue
            y = r.random()
            q = g.pid(p)
            if y < .2:
                for _ in range(r.choice([0, 1])):
                    g.a("rpkt", p["n"], q, *g.payload(p, q), "c=0")
                g.a("rpkt", p["n"], q + 1, g.ch(65312, 65378, 65378, 65379, 65380, 65400, 65500, 65535), g.seed(), "c=0")
                for _ in range(r.randrange(3)):
                    g.a("r", s, "@" + p["n"], g.ch(1, 15, 20, 21, 30000, 65398))
            elif y < .35:
                q = p["nxt"] + g.ch(1000, 1 << 16, 900000000)
                (g.inj(s, p, q, *g.payload(p, q)) if r.random() < .5 else g.a("rpkt", p["n"], q, *g.payload(p, q), "c=0"))
            elif y < .5:
                g.a("rpkt", p["n"], q, *g.payload(p, q), "c=0")
                g.a("rbyte", p["n"], g.ch(0, 2, 3, 4, 9, 128, 255))
                if r.random() < .5:
                    g.a("rpkt", p["n"], q + 1, *g.payload(p, q + 1), "c=0")
            elif y < .6:
                g.a("rbyte", p["n"], *g.ch((1,), (1, 0, 0), (1,) * 20, (1,) * 21))
                if r.random() < .6:
                    g.a("r", s, "@" + p["n"])
                g.a("rclose", p["n"], 0)
            elif y < .8:
                t = r.choice([1, 8, 19, 20, 21, 30])
                g.inj(s, p, q, max(0, t - 20) + g.ch(1, 2, 50, 65000), g.seed(), tot=t)
            elif y < .9:
                g.inj(s, p, q, 5, g.seed(), port=g.ch(1, 65535, p["port"] + 9))
            else:
                g.a("rclose", p["n"], 0)
            if r.random() < .9:
                g.a("r", s, "@" + p["n"], g.cap())
                if r.random() < .4:
                    g.a("r", s, "@" + p["n"])
            if r.random() < .4:
                p["hist"], p["pl"] = [], {}
                g.connect(s, p)
        g.a("netall", s)
        for _ in range(r.choice([1, 1, 2, 3])):
            g.a("r", s, "M")
        if r.random() < .4:
            g.a("ticknext", s, r.choice([0, 0, 1]))
            g.a("t", s)
        for p in g.P:
            if r.random() < .3:
                g.a("w", s, "@" + p["n"], g.cap())
        while r.random() < .4:
            g.a("d", s, 0)
    if r.random() < .7:
        g.a("del", s)
    return g.L


def ackroom(r):
    """several publishers, of which some have room for only a few acknowledgements, and receipts at different times"""
    n = r.choice([2, 2, 3])
    g = SubRaw(r, npub=n, nsub=1, lens="zero", bad=0, churn=0, auto=r.choice([0, 1]), base=0, maxs=r.choice([3, 4]))
    g.setup()
    s = "s1"
    for p in g.P:
        g.connect(s, p)
        p["q"] = 10
    for _ in range(r.randrange(2, 5)):
        for p in g.P:
            if r.random() < .6:
                # pending CAP - 1 bytes, then room for m acknowledgements
                left = CAP
                for k in range(3):
                    c = min(left - 4, 65395, r.randrange(1, 40000) if k < 2 else 65395)
                    if c > 0 and left - c - 3 > 50 or k == 2:
                        g.a("ctl", s, "a", p["ip"], p["port"], c, g.seed())
                        left -= c + 3
                c = 17 * r.choice([0, 1, 1, 2]) + r.choice([-1, 0, 0, 1])
                if c > 0:
                    g.a("w", s, "@" + p["n"], c)
        for _ in range(r.randrange(2, 7)):
            p = r.choice(g.P)
            for _ in range(r.choice([1, 1, 2])):
                g.inj(s, p, p["q"], *g.payload(p, p["q"]))
                p["q"] += r.choice([1, 2, 2, 3])
            g.a("netall", s)
            g.a("r", s, "M")
            g.a("tick", r.choice([1, 100, 3000, 9000, 20000]))
        for _ in range(r.randrange(1, 5)):
            g.a("ticknext", s, r.choice([0, 0, 1]))
            g.a("t", s)
            if r.random() < .4:
                p = r.choice(g.P)
                g.a("w", s, "@" + p["n"], r.choice([1, 16, 17, 18, 34]))
            if r.random() < .3:
                p = r.choice(g.P)
                g.inj(s, p, p["q"], *g.payload(p, p["q"]))
                p["q"] += r.choice([1, 2])
                g.a("netall", s)
                g.a("r", s, "M")
        if r.random() < .7:
            for p in g.P:
                for _ in range(3):
                    g.a("w", s, "@" + p["n"], -1)
    g.a("del", s)
    return g.L


def steady(r):
    """hundreds of packets one after the other, at a low load: memory must not grow"""
    if r.random() < .5:
        g = PubRaw(r, nsub=1, maxp=2)
        g.a("pub", "p1", "ip=10.0.0.1", "node=0x11", "max=2", "free=%d" % r.choice([0, 1]))
        g.a("raw", "r1", "ip=10.0.1.1")
        g.a("act", "p1")
        if r.random() < .7:
            g.connect(0)
            g.a("r", "p1", "L")
            up = 1
        else:
            up = 0
        what = r.choice(["data", "data", "mix", "resend", "ctl", "ann", "reconnect"])
        for k in range(r.choice([90, 120])):
            if what == "ann" or what == "mix" and r.random() < .2:
                if k == 0:
                    g.a("ann", "p1", 1000)
                g.a("tick", 1000)
                g.a("t", "p1")
                g.a("w", "p1", "M")
                continue
            if up and (what == "ctl" or what == "mix" and r.random() < .2):
                g.a("rctl", "r1", r.randrange(1, 20), g.seed())
                g.a("r", "p1", "0")
                continue
            if what == "reconnect" and up and k % 3 == 2:
                if r.random() < .5:
                    g.a("rclose", "r1", 0)
                    g.a("r", "p1", "0")
                else:
                    g.a("close", "p1", "0")
                g.connect(0)
                g.a("r", "p1", "L")
            g.a("q", "p1", r.randrange(0, 12), g.seed())
            g.n += 1
            g.a("w", "p1", "M")
            if up and (what != "reconnect" or r.random() < .7):
                if what == "resend":
                    g.a("ticknext", "p1", 0)
                    g.a("t", "p1")
                    g.a("w", "p1", "0")
                g.a("rack", "r1", g.n, g.n)
                g.a("r", "p1", "0")
        return g.L
    g = SubRaw(r, npub=1, nsub=1, lens="zero", bad=0, churn=0, auto=0, maxs=2)
    g.setup()
    p = g.P[0]
    g.connect("s1", p)
    q, what = p["nxt"], r.choice(["data", "data", "dup", "gaps", "tcp", "ctl", "reconnect", "keep"])
    for k in range(r.choice([90, 120])):
        if what == "ctl":
            g.a("ctl", "s1", "a", p["ip"], p["port"], r.randrange(1, 20), g.seed())
            g.a("w", "s1", 0)
            continue
        if what == "reconnect" and k % 4 == 3:
            g.a("close", "s1", 0)
            g.connect("s1", p)
        if what == "gaps" and k % 2 == 0:       # one number missing, filled by TCP
            g.inj("s1", p, q + 1, *g.payload(p, q + 1))
            g.a("netall", "s1")
            g.a("r", "s1", "M")
            g.a("rpkt", p["n"], q, *g.payload(p, q))
            g.a("r", "s1", 0)
            q += 2
        elif what == "tcp":
            g.a("rpkt", p["n"], q, *g.payload(p, q))
            g.a("r", "s1", 0)
            q += 1
        else:
            for _ in range(2 if what == "dup" else 1):
                g.inj("s1", p, q, *g.payload(p, q))
            g.a("netall", "s1")
            g.a("r", "s1", "M")
            if what == "dup":
                g.a("r", "s1", "M")
                g.a("rpkt", p["n"], q, *g.payload(p, q))
                g.a("r", "s1", 0)
            q += 1
        for _ in range(3):
            g.a("d", "s1", *([1] if what == "keep" else [0]))
        g.a("ticknext", "s1", 0)
        g.a("t", "s1")
        g.a("w", "s1", 0)
    if r.random() < .5:
        g.a("del", "s1")
    return g.L


def publong(r):
    """long histories: hundreds of packets in flight, acknowledged in long ranges"""
    k = r.choice([1, 1, 2])
    g = PubRaw(r, nsub=k, maxp=k)
    if r.random() < .3:
        g.a("base", r.choice(BASES))
    g.a("pub", "p1", "ip=10.0.0.1", "node=0x11", "max=%d" % k)
    for i in range(k):
        g.a("raw", "r%d" % (i + 1), "ip=10.0.1.%d" % (i + 1))
    g.a("act", "p1")
    for i in range(k):
        g.connect(i)
        g.a("r", "p1", "L")
    acked = 0
    for _ in range(r.choice([1, 2])):
        n = r.choice([70, 130, 150, 260])
        for _ in range(n):
            g.a("q", "p1", r.randrange(0, 12), g.seed())
        g.n += n
        for _ in range(3):
            g.a("w", "p1", "M")
        for z in range(k):
            at = acked
            while at < g.n:
                ln = r.choice([63, 64, 65, 66, 100, 128, 129, 255, 256, 257, n, n])
                if r.random() < .75:
                    g.a("rack", "r%d" % (z + 1), at + 1, min(at + ln, g.n))
                at += ln
            for _ in range(2):
                g.a("r", "p1", str(z))
        if r.random() < .5:
            g.a("ticknext", "p1", 0)
            g.a("t", "p1")
            for z in range(k):
                g.a("w", "p1", str(z), g.cap())
                g.a("w", "p1", str(z))
        acked = r.choice([acked, g.n])
    if r.random() < .5:
        g.a("rclose", "r1", 0)
        g.a("r", "p1", "@r1")
    g.a("del", "p1")
    return g.L


def pubbulk(r):
    """thousands of commands in one read, hundreds of retransmissions in one timeout run"""
    g = PubRaw(r, nsub=1, maxp=1)
    g.a("pub", "p1", "ip=10.0.0.1", "node=0x11", "max=2", "ctl=%d" % r.choice([1, 1, 1, 0]))
    g.a("raw", "r1", "ip=10.0.1.1")
    g.a("act", "p1")
    g.connect(0)
    g.a("r", "p1", "L")
    n = r.choice([60, 270, 270, 530])
    for _ in range(n):
        g.a("q", "p1", r.choice([0, 1, 2, 5]), g.seed())
    g.n = n
    for _ in range(r.choice([1, n // 20, n // 20])):
        g.a("w", "p1", "M")
    if r.random() < .7:
        g.a("ticknext", "p1", 0)
        g.a("t", "p1")
        g.a("w", "p1", "0", g.cap())
        for _ in range(3):
            g.a("w", "p1", "0")
    for _ in range(r.choice([1, 2])):
        m = r.choice([130, 260, 520, 1030, 1030])
        kind = r.choice(["ack", "ctl", "mix", "mix"])
        for j in range(m):
            if kind == "ctl" or kind == "mix" and r.random() < .5:
                g.a("rctl", "r1", r.choice([1, 1, 2]), g.seed())
            else:
                q = r.randrange(1, n + 1)
                g.a("rack", "r1", q, q)
        while r.random() < .4:
            g.a("r", "p1", "0", r.choice([1, 17, 4000, r.randrange(1, 4 * m)]))
        for _ in range(2):
            g.a("r", "p1", "0")
    if r.random() < .5:
        g.a("ticknext", "p1", 0)
        g.a("t", "p1")
    g.a("del", "p1")
    return g.L


def subbulk(r):
    """hundreds of ranges in one acknowledgement, thousands of packets in one read, hundreds handed over at once"""
    g = SubRaw(r, npub=1, nsub=1, lens="zero", bad=0, churn=0, auto=r.choice([0, 1]), base=0, maxs=2)
    g.setup()
    s, p = "s1", g.P[0]
    g.connect(s, p)
    q = 10
    g.inj(s, p, q, *g.payload(p, q))
    g.a("netall", s)
    g.a("r", s, "M")
    holes = []
    for _ in range(r.choice([130, 520, 560])):
        holes.append(q + 1)
        q += 2
        g.inj(s, p, q, 0, 7)
        if len(holes) % 20 == 0:
            g.a("netall", s)
            g.a("r", s, "M")
    g.a("netall", s)
    g.a("r", s, "M")
    if r.random() < .7:
        g.a("ticknext", s, 0)
        g.a("t", s)
        g.a("w", s, "0", g.cap())
        g.a("w", s, "0")
        g.a("w", s, "0")
    if r.random() < .3:
        r.shuffle(holes)
    if len(holes) > 300:
        holes = holes[:r.choice([3, 100])]
    tcp = r.random() < .7
    for h in holes:
        if tcp:
            g.a("rpkt", p["n"], h, 0, 7, "c=0")
        else:
            g.inj(s, p, h, 0, 7)
            if h % 20 == 0:
                g.a("netall", s)
                g.a("r", s, "M")
    if tcp:
        while r.random() < .4:
            g.a("r", s, "0", r.randrange(1, 21 * len(holes)))
        for _ in range(2):
            g.a("r", s, "0")
    else:
        g.a("netall", s)
        g.a("r", s, "M")
        g.a("ticknext", s, 0)
        g.a("t", s)
        g.a("w", s, "0")
    for _ in range(r.choice([3, 40])):
        g.a("d", s, 0)
    g.a("del", s)
    return g.L


def pubmany(r):
    """hundreds of subscribers at once: counts and indexes beyond eight bits"""
    k = r.choice([255, 256, 257, 258, 270])
    g = PubRaw(r, nsub=1, maxp=k)
    g.a("pub", "p1", "ip=10.0.0.1", "node=0x11", "max=%d" % (k + r.choice([0, 0, 1])), "free=%d" % r.choice([0, 1]), "ccb=1", "dcb=%d" % r.choice([0, 1]))
    g.a("raw", "r1", "ip=10.0.1.1")
    if r.random() < .4:
        g.a("thr", "p1", r.choice([1, 2, 3]), r.choice([0, 1]))
    g.a("act", "p1")
    early = r.choice([k, k, k - 1, k - 2])          # the others connect after the first packet was sent
    for i in range(k):
        if i == early:
            g.q()
            g.a("w", "p1", "M")
        g.a("rconn", "r1", "p1")
        g.a("r", "p1", "L")
    if r.random() < .5:                              # one more than there is room for
        g.a("rconn", "r1", "p1")
        g.a("r", "p1", "L")
    for _ in range(r.choice([1, 2, 3])):
        g.q()
        g.a("w", "p1", "M")
    quiet = set(r.sample(range(k), r.choice([0, 1, 1, 2]))) | ({0} if r.random() < .3 else set()) | ({k - 1} if r.random() < .3 else set())
    for i in range(k):
        c = k - 1 - i
        if i in quiet:
            continue
        if r.random() < .1:
            g.a("rclose", "r1", c) if r.random() < .1 else g.a("rack", "r1", 1, max(1, g.n - 1), "c=%d" % c)
        else:
            g.a("rack", "r1", 1, g.n, "c=%d" % c)
    for i in range(k):
        g.a("r", "p1", "=%d" % i)
    g.a("ticknext", "p1", 0)
    g.a("t", "p1")
    for i in sorted(quiet) or [0]:
        g.a("w", "p1", "=%d" % i)
    if r.random() < .5:
        g.a("deact", "p1")
    g.a("del", "p1")
    return g.L


def submany(r):
    """hundreds of publishers at one subscriber: counts and indexes beyond eight bits"""
    k = r.choice([255, 256, 257, 258, 270])
    L = ["sub s1 ip=10.0.1.1 node=0x21 max=%d auto=%d ann=%d cmp=1 rdy=1 alloc=%d" % (k + r.choice([0, 0, 1]), r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1])),
         "raw p1 ip=10.0.0.1 port=7001 anyport=1", "act s1"]
    uid = r.randrange(1 << 20)
    def inj(i, pid):
        L.append("inj s1 %d %d %d node=%s ip=10.0.0.1 port=%d src=10.0.0.1" % (pid, r.choice([0, 0, 3]), uid + i * 16 + pid, hex(0x1000 + i), 7001 + i))
    for i in range(k + r.choice([0, 1])):
        inj(i, 0)
        if i % 20 == 19:
            L += ["netall s1", "r s1 M"]
    L += ["netall s1", "r s1 M"]
    for i in range(k):
        if r.random() < .97 or i in (0, 255, 256):
            L.append("w s1 =%d" % i)
    gap = set(r.sample(range(k), 4))
    for pid in (1, 2):
        for i in range(k):
            if pid == 2 and r.random() < .6:
                continue
            inj(i, pid + (1 if i in gap and pid == 2 else 0))
            if i % 20 == 19:
                L += ["netall s1", "r s1 M"]
        L += ["netall s1", "r s1 M", "tick 1000"]
    for _ in range(r.choice([0, 10])):
        L.append("d s1 %d" % r.choice([0, 0, 1]))
    for i in r.sample(range(k), 3):
        L += ["rclose p1 %d" % (k - 1 - i), "r s1 =%d" % i]
    for _ in range(2):
        L += ["ticknext s1 0", "t s1"]
    for i in [0, 1, 254, 255, 256, k - 1] + r.sample(range(k), 6):
        L.append("w s1 =%d" % i)
    for i in (0, 255, 256):
        if i < k:
            L.append("ctl s1 node %s 5 %d" % (hex(0x1000 + i), uid))
            L.append("w s1 =%d" % i)
    if r.random() < .5:
        L.append("deact s1")
    L.append("del s1")
    return L


def sublong(r):
    """long histories: hundreds of packets, many of them missing"""
    g = SubRaw(r, npub=r.choice([1, 1, 2]), nsub=1, lens="zero", bad=0, churn=0, auto=r.choice([0, 1, 2]), maxs=2)
    g.setup()
    for p in g.P:
        g.connect("s1", p)
    for _ in range(r.choice([1, 2])):
        for p in g.P:
            k = r.choice(["up", "up", "mix", "mix", "down", "front", "both"])
            n, step = r.choice([(140, 1), (140, 2), (90, 2), (300, 1), (150, 3), (70, 5)] if k in ("up", "mix") else [(140, 1), (200, 1), (150, 2)])
            loss = r.choice([0, .03])
            if r.random() < .5:      # one in order, then a gap
                g.inj("s1", p, p["nxt"], *g.payload(p, p["nxt"]))
                p["nxt"] += r.choice([2, 3])
                if r.random() < .5:
                    g.a("netall", "s1")
                    g.a("r", "s1", "M")
                    g.a("ticknext", "s1", 0)
                    g.a("t", "s1")
            ids = [p["nxt"] + step * x for x in range(n)]
            p["nxt"] += step * n
            if k == "mix":
                r.shuffle(ids)
            elif k == "down":
                ids.reverse()
            elif k == "front":       # the lower half downwards, after the upper half
                ids = ids[n // 2:] + ids[:n // 2][::-1]
            elif k == "both":        # from the middle outwards
                ids = [x for z in zip(ids[n // 2:], ids[:n // 2][::-1]) for x in z]
            for q in ids:
                if r.random() >= loss:
                    g.inj("s1", p, q, *g.payload(p, q))
        g.a("netall", "s1")
        for _ in range(len(g.P) * n + 60):
            g.a("r", "s1", "M")
        if r.random() < .7:
            g.a("ticknext", "s1", 0)
            g.a("t", "s1")
            for k in range(len(g.P)):
                g.a("w", "s1", k, g.cap())
                g.a("w", "s1", k)
        for p in g.P:     # what was missing arrives by TCP
            miss = [q for q in range(max(1, p["nxt"] - 120), p["nxt"]) if q not in g_hist(p)]
            for q in miss[:60]:
                g.a("rpkt", p["n"], q, *g.payload(p, q), "node=" + p["node"])
            for _ in range(4):
                g.a("r", "s1", "@" + p["n"], g.cap())
        g.a("t", "s1")
        for _ in range(r.choice([0, 30, 200])):
            g.a("d", "s1")
    g.a("del", "s1")
    return g.L


def g_hist(p):
    return set(p["hist"])


def pubwrap(r):
    """writes and reads that end just around the point where a buffer wraps"""
    g = PubRaw(r, frag=1, lens=r.choice(["big", "edge"]), nsub=1, maxp=2, ctl=2, thr=0, churn=0, bad=0)
    g.wraps = True
    return g.scenario()


def pubfault(r):
    return PubRaw(r, fault=3, lens=r.choice(["small", "edge"])).scenario()


def ctl(r):
    """control messages, with wrapping and full queues, interleaved with acknowledgements"""
    o = dict(pubs=r.choice([1, 1, 2]), subs=r.choice([1, 2]), lens=r.choice(["small", "big", "big"]), ports=True, ops=r.randrange(40, 100), frag=r.choice([.3, .9]), loss=.1, cfg_var=r.random() < .3,
             base=r.choice(BASES), same_node=r.random() < .25,
             w=dict(ctl=35, ctlbad=2, ackturn=8, q=8, wm=8, sw=18, pr=12, flow=5, close=.7, connect=2, fault=.3, deact=.2, inj=.3))
    g = Gen(r, **o)
    if o["same_node"] and o["pubs"] == 2:
        # the second publisher never gets beyond a connection that is being set up
        g.setup()
        g.connect("p1")
        g.announce("p2")
        for s in g.subs:
            g.a("netall", s)
            g.a("r", s, "M")
        for _ in range(30):
            s = g.s()
            x = r.randrange(5)
            if x <= 1:
                g.a("ctl", s, "n", "11", r.choice([1, 5, 300, 20000]), g.seed())
            elif x == 2:
                g.a("w", s, "@p1", g.cap())
            elif x == 3:
                g.a("r", "p1", g.ref(), g.cap())
            else:
                g.a("ctl", s, "a", "10.0.0.2", 7000, 5, g.seed())
        g.finish()
        return g.L
    return g.scenario()


def times(r):
    """boundaries of the timeouts"""
    o = dict(pubs=r.choice([1, 2]), subs=r.choice([1, 2, 3]), lens="small", ops=r.randrange(40, 100), loss=r.choice([.1, .4]), base=r.choice(BASES), ports=True,
             w=dict(t=25, tick=15, tall=10, ackturn=10, wall=10, ann=4, close=1, fault=.5, deact=.3, inj=.5))
    return Gen(r, **o).scenario()


def capacity(r):
    """more peers than connections"""
    o = dict(pubs=r.choice([1, 2, 4]), subs=r.choice([1, 2, 4]), lens="small", ops=r.randrange(30, 70), loss=.1, maxp=r.choice([1, 2, 3]), maxs=r.choice([1, 2, 3]), ports=True, same_ip=True,
             base=r.choice(BASES), w=dict(connect=14, close=8, acc=8, fault=8, deact=1.5, ccb=2, annret=2))
    return Gen(r, **o).scenario()


def life(r):
    o = dict(pubs=r.choice([1, 2]), subs=r.choice([1, 2]), lens=r.choice(["small", "edge"]), ops=r.randrange(30, 70), loss=.2, cfg_var=True, base=r.choice(BASES),
             w=dict(deact=8, act=4, fault=10, connect=8, ud=2, ttl=1, close=2))
    return Gen(r, **o).scenario()


def announce(r):
    """announcements against all states of connections"""
    o = dict(pubs=r.choice([1, 2, 3]), subs=r.choice([1, 2]), lens="small", ops=r.randrange(40, 90), loss=r.choice([0, .3]), cfg_var=r.random() < .5, same_ip=True, same_node=r.random() < .3, ports=r.random() < .6,
             base=r.choice(BASES), w=dict(ann=10, acb=6, t=20, tick=10, annret=4, wm=20, fault=4, close=3, inj=3, net=25))
    return Gen(r, **o).scenario()


def datagrams(r):
    o = dict(pubs=r.choice([1, 2]), subs=r.choice([1, 2]), lens=r.choice(["small", "edge"]), ops=r.randrange(30, 80), loss=.1, ports=True, base=r.choice(BASES), w=dict(inj=40, fault=1))
    return Gen(r, **o).scenario()


def sizes(r):
    o = dict(pubs=r.choice([1, 2]), subs=r.choice([1, 2, 3]), lens=r.choice(["edge", "big"]), ops=r.randrange(30, 80), loss=r.choice([.1, .5]), ports=True, cfg_var=r.random() < .4, frag=r.choice([0, .5, 1]),
             base=r.choice(BASES), w=dict(q=30, wall=10, ackturn=8))
    return Gen(r, **o).scenario()


def cleanbig(r):
    o = dict(pubs=1, subs=r.choice([1, 2, 3]), lens=r.choice(["big", "edge"]), clean=True, ops=r.randrange(30, 80), loss=r.choice([.3, .6, .9]), frag=r.choice([.3, .9]), base=r.choice(BASES), settle=True,
             ports=True, w=dict(q=30, close=.5, connect=1))
    return Gen(r, **o).scenario()


class SubConn(SubRaw):
    """connection management of a subscriber: announcements of several publishers against failures at every step"""
    def watch(self, s, p):
        """send something that only an established connection may take"""
        q = self.pid(p)
        self.inj(s, p, q, *self.payload(p, q))
        self.a("netall", s)
        self.a("r", s, "M")

    def step(self):
        r = self.r
        s, p = r.choice(self.S), r.choice(self.P)
        x = r.random() * 10
        if x < 1.5:
            self.connect(s, p)
        elif x < 3.2:
            self.inj(s, p, 0, r.choice([0, 5]), self.seed())
            self.a("netall", s)
            self.a("fault", *self.ch(("connect", 1, 111), ("connect", 1, 101), ("connect", 1, 113), ("socket", 1, 24), ("setsockopt", 1, 22), ("setsockopt", 2, 22), ("connect", 1, 115), ("connect", 1, 0)))
            self.a("r", s, "M")
            if r.random() < .7:
                self.announce(s, p)
            if r.random() < .7:
                self.a("w", s, "@" + p["n"])
        elif x < 4.2:
            self.announce(s, p)
            self.a("w", s, "@" + p["n"], -1, self.ch(111, 110, 113, 0))
            if r.random() < .5:
                self.announce(s, p)
        elif x < 4.8:
            self.announce(s, p)
            self.a("fault", self.ch("getsockopt", "setsockopt"), 1, 22)
            self.a("w", s, "@" + p["n"])
        elif x < 5.4:
            self.a("rlisten", p["n"], 0)
            self.connect(s, p)
            self.a("rlisten", p["n"], 1)
        elif x < 5.9:
            self.a("close", s, self.ch("0", "1", "=0", "=1", "=2", "@" + p["n"]))
        elif x < 6.5:
            self.announce(s, p)
        elif x < 7.8:
            for q in self.P:
                if r.random() < .5:
                    self.watch(s, q)
        elif x < 8.2:
            self.a("annret", s, self.ch(0, 1, 1, 1))
        elif x < 8.7:
            self.a("ctl", s, *(("a", p["ip"], p["port"]) if r.random() < .5 else ("n", p["node"][2:])), self.ch(1, 14, 100), self.seed())
            self.a("w", s, "@" + p["n"], self.cap())
        elif x < 9.3:
            q = self.pid(p)
            self.a("rpkt", p["n"], q, *self.payload(p, q), "node=" + p["node"])
            self.a("r", s, "@" + p["n"], self.cap())
        elif x < 9.6:
            self.a("rclose", p["n"], 0)
            self.a("r", s, "@" + p["n"])
        elif x < 9.75:
            self.a("deact", s)
            self.a("act", s)
        else:
            self.a("ticknext", s, 0)
            self.a("t", s)
            for k in range(self.o["npub"]):
                self.a("w", s, k, self.cap())
        self.a("d", s)

    def scenario(self):
        self.setup()
        for s in self.S:
            for p in self.P:
                if self.r.random() < .4:
                    self.connect(s, p)
        for _ in range(self.o["ops"]):
            self.step()
        for s in self.S:
            self.a("del", s)
        return self.L


def subconn(r):
    return SubConn(r, npub=r.choice([2, 3, 4, 5]), nsub=1, lens="small", frag=r.choice([0, .5]), ops=r.randrange(40, 90), maxs=r.choice([1, 2, 2, 3, 4, 5, 8])).scenario()


def cleanlate(r):
    """subscribers that join late, and then lose everything that is multicast for a while"""
    g = Gen(r, pubs=r.choice([1, 1, 2]), subs=r.choice([1, 2, 3]), lens="small", clean=True, ops=r.randrange(5, 30), loss=r.choice([.2, .6]), frag=r.choice([0, .3]), base=r.choice(BASES), settle=True,
            ports=True, same_ip=True, w=dict(close=.3, connect=.5))
    g.setup()
    for p in g.pubs:
        for _ in range(r.choice([0, 1, 17, 18, 20, 33, 64, 70, 130, 260])):
            g.a("q", p, r.randrange(8, 24), g.seed())
            g.a("w", p, "M")
        for s in g.subs:
            if r.random() < .5:
                g.a("netall", s)
                g.a("r", s, "M")
    for p in g.pubs:
        g.connect(p, [s for s in g.subs if r.random() < .8] or g.subs)
    for _ in range(r.choice([1, 2])):
        n = r.choice([1, 2, 5, 17, 20, 34, 65])
        for p in g.pubs:
            for _ in range(n if p == "p1" else 2):
                g.a("q", p, r.randrange(8, 24), g.seed())
                g.a("w", p, "M")
        for s in g.subs:
            x = r.random()
            for k in range(n + 2 * (len(g.pubs) - 1)):
                g.a("net", s, "drop" if x < .5 or r.random() < .6 else "deliver", 0)
            g.a("netall", s)
            g.a("r", s, "M")
        if r.random() < .5:
            g.run()
    g.finish()
    return g.L

def nodes_of(ls):
    return [(l.split()[0], l.split()[1]) for l in ls if l.split()[0] in ("pub", "sub")]


def vary(r, ls, opts):
    """the same scenario with other node options: opts maps an option to the probability that it is set to 0 (or 1 for nores)"""
    out = []
    for l in ls:
        w = l.split()
        if w[0] in ("pub", "sub"):
            for k, p in opts.items():
                if r.random() < p:
                    w = [x for x in w if not x.startswith(k + "=")] + ["%s=%d" % (k, k == "nores")]
        out.append(" ".join(w))
    return out


def weave(r, ls, make_line, density):
    """the same scenario with other lines in between, after every node exists"""
    last = max(i for i, l in enumerate(ls) if l.split()[0] in ("pub", "sub", "raw"))
    out = []
    for i, l in enumerate(ls):
        if i > last and r.random() < density:
            out.append(make_line())
        out.append(l)
    return out


def some(r):
    k = r.randrange(6)
    if k == 0:
        return Gen(r, pubs=r.choice([1, 2]), subs=r.choice([1, 2]), lens=r.choice(["small", "edge", "big"]), cfg_var=r.random() < .5, ops=r.randrange(25, 60), loss=r.choice([.1, .4]), frag=r.choice([0, .5]), ports=True,
                   base=r.choice(BASES), w=dict(fault=4, close=2, connect=4, deact=1, ctl=6)).scenario()
    if k == 1:
        return PubRaw(r, ctl=1.5, churn=1.5, fault=1, act=r.choice([0, .5]), ops=r.randrange(40, 90), lens=r.choice(["small", "edge"])).scenario()
    if k == 2:
        return SubRaw(r, churn=1.5, bad=.5, ops=r.randrange(40, 90), lens=r.choice(["small", "mix"])).scenario()
    return (subconn, subchurn, publife)[k - 3](r)


def sparse(r):
    """applications that set few callbacks, and do not ask what a call did"""
    return vary(r, some(r), r.choice([dict(pm=1), dict(pr=1), dict(nores=1), dict(pm=.5, pr=.5, nores=.5), dict(pm=1, pr=1, nores=1, ccb=1, dcb=1, ctl=1, acb=1, ann=1, cmp=1, rdy=1, alloc=1, free=1)]))


def leaks(r):
    """the default memory functions everywhere, and packets left in every state"""
    ls = vary(r, some(r), dict(alloc=1, free=r.choice([0, 0, 1]), rdy=.3, cmp=.3))
    if r.random() < .5:     # cut short: everything is still in the middle of something
        n = len(nodes_of(ls))
        ls = ls[:r.randrange(len(ls) // 2, len(ls))]
        while ls and ls[-1].split()[0] in ("fault",):
            ls.pop()
    return ls


def oddcalls(r):
    """calls on connections that do not exist, and on contexts that are not active"""
    ls = some(r)
    nn = nodes_of(ls)

    def line():
        k, n = r.choice(nn)
        x = r.random()
        if x < .7:
            return "%s %s =%d" % (r.choice("rw"), n, r.choice([0, 1, 2, 3, 7, 8, 30, 200]))
        if x < .8:
            return "close %s =%d" % (n, r.choice([0, 1, 7, 40]))
        if k == "pub":
            return r.choice(["ttl %s %d" % (n, r.choice([0, 1, 255])), "qnull " + n, "thr %s 2 %d" % (n, r.choice([0, 2, 3])), "w %s M" % n])
        return r.choice(["ctlnull %s 11" % n, "ctl %s n 7777 5 1" % n, "ctl %s a 10.9.9.9 7000 5 1" % n, "t " + n])
    return weave(r, ls, line, .15)


BADIPS = ["no.such.host", "300.1.1.1", "10.0.0.x", "x", "10.0.0.0.1"]


def badinit(r):
    """contexts that cannot be created, among others that can"""
    L = []
    for i in range(r.randrange(3, 9)):
        pub = r.random() < .5
        n = "%s%d" % ("p" if pub else "s", i)
        c = ["ip=10.0.%d.%d" % (0 if pub else 1, i + 1), "node=%d" % (i + 1), "max=%d" % r.choice([1, 2, 8])]
        for k in ("grp", "mif", "lip")[:3 if pub else 2]:
            x = r.random()
            if x < .25:
                c.append("%s=%s" % (k, r.choice(BADIPS)))
            elif x < .5:
                c.append("%s=%s" % (k, "239.7.7.7" if k == "grp" else "10.0.%d.%d" % (0 if pub else 1, i + 1)))
        L.append(" ".join(["pub" if pub else "sub", n] + c))
        for _ in range(r.randrange(4)):
            L.append("%s %s" % (r.choice(["act", "deact", "t", "act"]), n))
        if pub and r.random() < .5:
            L += ["q %s %d %d" % (n, r.randrange(40), i), "w %s M" % n]
        if r.random() < .5:
            L.append("del " + n)
    return L


def actfault(r):
    """every step of an activation fails, in every state, and the context is used again afterwards"""
    L = []
    np, ns = r.choice([(1, 1), (1, 0), (0, 1), (2, 1)])
    nn = []
    for i in range(np):
        L.append("pub p%d ip=10.0.0.%d node=%d max=%d" % (i + 1, i + 1, i + 17, r.choice([1, 4])) + r.choice(["", " port=%d" % (7000 + i), " lip=10.0.0.%d mif=10.0.0.%d" % (i + 1, i + 1)]))
        nn.append("p%d" % (i + 1))
    for i in range(ns):
        L.append("sub s%d ip=10.0.1.%d node=%d max=%d" % (i + 1, i + 1, i + 33, r.choice([1, 4])) + r.choice(["", " mif=10.0.1.%d" % (i + 1)]))
        nn.append("s%d" % (i + 1))
    uid = r.randrange(1 << 20)
    for _ in range(r.randrange(6, 14)):
        n = r.choice(nn)
        if n[0] == "p" and r.random() < .5:
            L.append("q %s %d %d" % (n, r.randrange(40), uid))
            uid += 1
        for _ in range(r.choice([1, 1, 2])):
            L.append("fault %s %d %d" % (r.choice(["socket", "setsockopt", "setsockopt", "bind", "listen", "getsockname"]), r.choice([1, 1, 1, 2, 2, 3, 4]), r.choice([22, 98, 24, 1, 13])))
        L.append("act " + n)
        if r.random() < .7:
            L.append("act " + n)
        if n[0] == "p":
            if r.random() < .3:
                L += ["fault setsockopt 1 22", "ttl %s 3" % n]
            L += r.sample(["ttl %s %d" % (n, r.choice([0, 1, 255])), "w %s M" % n, "t " + n, "ann %s 1000" % n], r.randrange(3))
        elif np:
            L += ["ann p1 1000", "tick 1000", "t p1", "ann p1 0", "w p1 M", "netall s1", "r s1 M", "w s1 @p1", "r p1 L", "q p1 20 %d" % uid, "w p1 M", "netall s1", "r s1 M"]
            uid += 1
        if r.random() < .6:
            L.append("deact " + n)
            if r.random() < .2:
                L.append("deact " + n)
    for n in nn:
        L.append("del " + n)
    return L



def nestpub(r):
    """a publisher whose callbacks call it"""
    thr = r.choice([0, 0, 1])
    g = PubRaw(r, thr=thr, ctl=2.5, churn=r.choice([.4, 1]), cfg=False, ann=1, nsub=r.choice([1, 2, 3]), ops=r.randrange(40, 90), fault=r.choice([0, 0, .5]), lens=r.choice(["small", "small", "edge", "mid"]))
    base, g.down = g.step, False

    def setup(*x):
        if x[0] == "pub":
            x = x + ("ccb=1", "dcb=1", "ctl=1", "acb=1", "free=1")
        if x[0] == "thr" and x[2] == x[3]:
            x = ("thr", x[1], x[2] + 1, x[3])
        g.L.append(" ".join(map(str, x)))
    g.a = setup

    def step():
        if r.random() < .35:
            ev = r.choice(["ctl", "ctl", "ctl", "cc", "cc", "acb"] + ([] if thr else ["dc", "pf"]))     # when traffic is suspended exactly, in these two, is not prescribed
            w = "q"
            if ev in ("ctl", "cc", "acb") and r.random() < .06:
                w = "deact"
            elif ev in ("ctl", "cc"):
                w = r.choice(["q", "q", "close", "close", "ann"] if ev == "ctl" else ["q", "q", "close", "ann"])
            elif ev == "dc":
                w = r.choice(["q", "close", "close"])
            elif ev == "acb":
                w = r.choice(["q", "ann", "ann"])
            if w == "q":
                c = ["q", g.length(), g.seed()]
                if ev == "acb" and r.random() < .5:
                    c.append(1)
            elif w == "close":
                c = ["close", "@" + g.rs()]
            elif w == "deact":
                c, g.down = ["deact"], True
            else:
                c = ["ann", r.choice([0, 0, 1000, 100000])]
            g.a("on", "p1", ev, r.choice([0, 0, 1, 2]), *c)
        if g.down and r.random() < .1:
            g.a("act", "p1")
        if r.random() < .1:
            z = g.rs()
            for _ in range(r.randrange(1, 4)):
                g.a(*g.ch(("rack", z, max(1, g.n - 2), max(1, g.n)), ("rctl", z, r.choice([1, 20, 3000]), g.seed()), ("rctl", z, 3, g.seed())))
            g.a("r", "p1", "@" + z, g.cap())
        base()
    g.step = step
    return g.scenario()


def nestsub(r):
    """a subscriber whose callbacks call it"""
    g = SubRaw(r, auto=r.choice([0, 0, 1]), maxs=r.choice([2, 3, 4]), bad=r.choice([0, 0, .5]), ops=r.randrange(40, 90), churn=r.choice([.3, 1]), lens=r.choice(["small", "small", "mix", "edge"]))
    base, g.down = g.step, False

    def setup(*x):
        if x[0] == "sub":
            x = tuple(v for v in x if str(v).split("=")[0] not in ("ann", "cmp", "rdy")) + tuple("%s=1" % v for v in ("ann", "cmp", "rdy"))
        g.L.append(" ".join(map(str, x)))
    g.a = setup

    def step():
        if r.random() < .35:
            ev = r.choice(["rdy", "rdy", "rdy", "ann", "cmp"])
            p = r.choice(g.P)
            w = r.choice(dict(rdy=["d", "d", "d", "ctl", "close"], ann=["ctl", "close", "d"], cmp=["ctl", "ctl", "close", "d"])[ev])
            if r.random() < .06:
                w = "deact"
            if w == "deact":
                c, g.down = ["deact"], True
            elif w == "d":
                c = ["d", int(r.random() < .2)]
            elif w == "ctl":
                c = ["ctl", p["ip"], p["port"], r.choice([1, 3, 14, 100, 30000]), g.seed()]
            else:
                c = ["close", "@" + p["n"]]
            for _ in range(3 if w == "d" and r.random() < .5 else 1):
                g.a("on", r.choice(g.S), ev, r.choice([0, 0, 1, 2]), *c)
        if g.down and r.random() < .1:
            g.a("act", r.choice(g.S))
        base()
    g.step = step
    return g.scenario()


def logs(r):
    """any scenario, with the log at changing levels, in colour or not, with and without a start time"""
    f = r.choice([mixed, clean, some, subconn, subbad, subwild, pubwild, pubfault, pubchurn, publife, pubfull, pubthr, pubann, subacks, ackroom, actfault, badinit, oddcalls, ctl, capacity, announce, datagrams, nestpub, nestsub, sparse])
    ls = f(r)

    def level():
        x = "log %d" % r.choice([6, 6, 6, 6, 5, 5, 4, 4, 3, 2, 1, 0, 0, 7, -1, 100, -2147483648])
        if r.random() < .2:
            x += " color=%d" % r.randrange(2)
        return x + (" start=1" if r.random() < .1 else "")
    head = [l for l in ls if l.split()[0] in ("base", "pidbase", "pidjump")]
    rest = [l for l in ls if l.split()[0] not in ("base", "pidbase", "pidjump")]
    d = r.choice([0, .02, .1])
    out = head + ["log %d" % r.choice([6, 6, 6, 5, 4, 3, 2, 1, 0])]
    for l in rest:
        if out[-1].split()[0] != "fault":
            if r.random() < d:
                out.append(level())
            if r.random() < .05:
                out.append("logmsg %d" % r.randrange(1, 1000))
        out.append(l)
    return out


def slow(r):
    """days instead of seconds: the times of other suites in milliseconds, with long silences and long announce intervals"""
    f = r.choice("times steady pubraw pubmulti pubann pubowe subowe subraw submulti subacks ackroom clean pubthr pubann times mixed".split())
    while 1:
        ls = SUITES[f](r)
        if len(ls) < 600:
            break
    long = [2147483000, 2147484000, 3000000000, 4294967000, 4294968000, 4295000000, 4295067000, 8589934000, 60000000, 1000000, 86400000000]
    ivs, out, some = [], ["unit 1000"], r.choice([.05, .15, .3])
    for l in ls:
        w = l.split()
        if w and w[0] == "tick":
            n = int(w[1])
            n = r.choice(long + ivs) if r.random() < some else (n + 500) // 1000 * 1000 if n > 1000 else n * 1000
            l = "tick %d" % n
        elif w and w[0] == "ticknext" and len(w) > 2:
            l = "ticknext %s %d" % (w[1], int(w[2]) * 1000 if abs(int(w[2])) < 1000 else int(w[2]) // 1000 * 1000)
        elif w and w[0] == "ann":
            n = int(w[2])
            if n and r.random() < .4:
                n = r.choice([2147483000, 2147484000, 3000000000, 4294967000, 4294000000])
                ivs += [n, n - 1000]
            l = "ann %s %d" % (w[1], n if n == 0 else max(1000, n // 1000 * 1000))
        elif r.random() < some / 10:
            out.append("tick %d" % r.choice(long))
        out.append(l)
    return out


SUITES = {f.__name__: f for f in (slow, pubbulk, subbulk, logs, nestpub, nestsub, mixed, clean, cleanbig, cleanlate, subconn, ackroom, pubowe, subowe, pubwild, subwild, subraw, subacks, submulti, subbad, subchurn, subframe, pubraw, pubmulti, pubthr, pubann, pubchurn, publife, pubfull,
                                  pubframe, pubfault, pubctl, pubexact, subexact, publong, sublong, pubmany, submany, pubwrap, subjump, subready, ctl, times, capacity, steady, life, announce, datagrams, sizes, sparse, leaks, oddcalls, badinit, actfault)}


APART = ("mixed mixed clean subconn subbad subwild pubwild pubfault pubchurn publife pubfull pubthr pubann subacks subraw subframe subchurn submulti subready subjump subowe pubraw pubframe pubmulti pubowe ackroom "
         "actfault badinit oddcalls ctl capacity announce datagrams nestpub nestsub nestpub nestsub sparse life leaks times").split()


def apart(seed, i):
    """a scenario on its own, and interleaved with another one in the same process: lines of the other one start with | or, if they run within callbacks of the first, with >"""
    r = random.Random("apart/%d/%d" % (seed, i))

    def one(k):
        while 1:
            f = r.choice(APART)
            ls = make(f, seed * 131 + k, 1, r.randrange(10 ** 6))[0][1]
            if len(ls) < 1500 and not any("node=0 " in x + " " for x in ls):
                return ls
    only = ("tick", "ticknext", "settle", "base", "pidbase", "pidjump", "log", "logmsg")
    a = one(1)
    same = r.random() < .5         # the other one has the same history, in step
    b = [x for x in (a if same else one(2)) if x.split() and x.split()[0] not in only and x[0] != "#"]
    if r.random() < .5:
        b = [x.replace("10.0.", "10.7.") for x in b]
    head = [x for x in a if x.split()[0] in ("base", "pidbase", "pidjump")]
    rest = [x for x in a if x.split()[0] not in ("base", "pidbase", "pidjump")]
    mode, out, k = r.choice(["|", ">", ">", "mix", "mix"]), list(head), 0
    for j, l in enumerate(rest):
        left = (len(b) - k) / max(1, len(rest) - j)
        n = int(left) + (r.random() < left - int(left))
        if same:
            n = l.split()[0] not in only and l[0] != "#"
        elif r.random() < .3:
            n = r.choice([0, 0, n, 2 * n, 5])
        if not (j and rest[j - 1].split()[0] == "fault"):
            for x in b[k:k + n]:
                out.append(("|" if mode == "|" or mode == "mix" and r.random() < .4 else ">") + x)
            k += len(b[k:k + n])
        out.append(l)
    return a, out + ["|" + x for x in b[k:]]


def make(suite, seed, n, start=0):
    out = []
    for i in range(start, start + n):
        ls = SUITES[suite](random.Random("%s/%d/%d" % (suite, seed, i)))
        r = random.Random("pid/%s/%d/%d" % (suite, seed, i))
        if r.random() < .25 and not any(x.startswith("pid") for x in ls):     # a publisher that has sent many packets before
            ls = ["pidbase %d" % r.choice(PIDBASES[2:])] + ls
        out.append(("%s-%d-%d" % (suite, seed, i), ls))
    return out


if __name__ == "__main__":
    import sys
    for i, ls in make(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])):
        print("### " + i)
        print("\n".join(ls))
