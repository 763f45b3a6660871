"""Scenario generators for the peer-to-peer network."""
from scen_msg import simline, netline, size
CONV = 4600

class G:
    def __init__(self, r, nn=None, tls=None, ping=None, noncemod=True, delay=100, **kw):
        self.r = r; self.delay = delay
        self.nn = nn or r.choice([2, 2, 2, 3])
        self.tls = r.random() < 0.25 if tls is None else tls
        idm = r.choice(["addr", "cert"]) if self.tls else "addr"
        o = dict(kind="peer", ping=ping or r.choice([0.5, 1]), ctimeout=3, cto=0.3, idmode=idm); o.update(kw)
        heavy = r.random() < 0.6
        self.L = [simline(r, heavy=heavy, timers=True)]
        if noncemod and r.random() < 0.6: self.L.append("noncemod %d" % r.choice([2, 3, 4, 40]))
        self.L += [netline(r, i, tls=self.tls, **o) for i in self.nets()]
        self.L += ["start %d" % i for i in self.nets()] + ["listen %d" % i for i in self.nets()]
    def nets(self):
        return range(1, self.nn + 1)
    def add(self, *ls):
        self.L += ls
    def gap(self):
        r = self.r; k = r.random()
        if k < 0.4: self.add("steps %d" % r.randrange(1, 80))
        elif k < 0.6: self.add("settle")
        elif k < 0.75: self.add("run %d" % r.choice([5, 40, 100, 160, 300]))
    def pairs(self):
        return [(a, b) for a in self.nets() for b in self.nets() if a != b]
    def meet(self, dial="both", ntry=-1):
        """every pair gets to know each other and at least one side of each dials"""
        r = self.r; todo = []
        for a in self.nets():
            for b in self.nets():
                if a >= b: continue
                d = dial if dial != "any" else r.choice(["both", "both", "one"])
                who = [(a, b), (b, a)] if d == "both" else [r.choice([(a, b), (b, a)])]
                for x, y in [(a, b), (b, a)]:
                    q = ["addpeer %d %d" % (x, y)]
                    if (x, y) in who or r.random() < 0.5: q.append("setaddr %d %d" % (x, y))
                    if (x, y) in who: q.append("connpeer %d %d %d %d" % (x, y, ntry, self.delay))
                    elif r.random() < 0.2 and len(q) == 2: q.append("connpeer %d %d 0 %d" % (x, y, self.delay))
                    todo.append(q)
        while todo:
            q = r.choice(todo); self.add(q.pop(0))
            if not q: todo.remove(q)
            if r.random() < 0.3: self.gap()
    def disturb(self, kinds=("reset", "term", "stall", "redial", "pause", "hole", "fin")):
        r = self.r; k = r.choice(kinds); a, b = r.choice(self.pairs())
        if k == "reset": self.add("cut 700%d 2 %d" % (a, r.randrange(3)))
        elif k == "term": self.add("term %d %d" % (a, r.randrange(4)))
        elif k == "stall":
            self.add("cut 700%d 0 %d" % (a, r.randrange(3)), "run %d" % r.choice([50, 400, 2000, 6000]), "cut 700%d 1" % a)
        elif k == "redial": self.add("setaddr %d %d" % (a, b), "connpeer %d %d -1 %d" % (a, b, self.delay))
        elif k == "pause": self.add("pause %d" % a, "run %d" % r.choice([20, 300, 1500, 5000]), "resume %d" % a)
        elif k == "hole": self.add("portmode 700%d %d" % (a, r.choice([1, 2])), "cut 700%d 2" % a, "run %d" % r.choice([50, 500, 2000]), "portmode 700%d 0" % a)
        elif k == "readd":
            self.add("delpeer %d %d" % (a, b)); self.gap(); self.add("addpeer %d %d" % (a, b), "setaddr %d %d" % (a, b)); self.gap(); self.add("connpeer %d %d -1 %d" % (a, b, self.delay))
        elif k == "both": self.add("term %d 0" % a, "term %d 0" % b)
        elif k == "stop0": self.add("connpeer %d %d 0 %d" % (a, b, self.delay)); self.gap(); self.add("setaddr %d %d" % (b, a), "connpeer %d %d -1 %d" % (b, a, self.delay))
    def quiet(self, ms=CONV):
        self.add("join", "run %d" % ms, "quiet")
    def look(self):
        for a, b in self.pairs(): self.add("haspeer %d %d" % (a, b), "getconn %d %d" % (a, b))
        for a in self.nets(): self.add("peerid %d" % a)
    def text(self):
        return "\n".join(self.L)

def p09(r, i):
    g = G(r); g.meet("any"); g.gap()
    for _ in range(r.choice([0, 1, 1, 2, 3])): g.disturb(("reset", "term", "redial", "redial", "both", "hole", "stall", "readd", "stop0")); g.gap()
    g.quiet()
    if r.random() < 0.5:
        for _ in range(r.choice([1, 2])): g.disturb(); g.gap()
        g.quiet()
    if r.random() < 0.3: g.add("run 3000", "quiet")
    return g.text()
def p09w(r, i):
    """an attempt succeeds just when the next one supersedes it"""
    g = G(r, delay=r.choice([40, 80, 150])); a = r.choice(list(g.nets()))
    g.add("portmode 700%d 4" % a); g.meet("any")
    g.add("run %d" % r.choice([100, 300, 900]), "portmode 700%d 0" % a); g.quiet()
    if r.random() < 0.3: g.add("portmode 700%d 4" % a, "cut 700%d 2" % a, "run %d" % r.choice([200, 600]), "portmode 700%d 0" % a); g.quiet()
    return g.text()
def p10(r, i):
    g = G(r, **(dict(keep=1) if r.random() < 0.5 else {})); g.meet("any"); g.gap()
    for _ in range(r.choice([1, 2, 2, 3])): g.disturb(("reset", "term", "redial", "both", "pause", "stall", "readd")); g.gap(); g.add("settle"); g.look()
    if r.random() < 0.2: g.add("delpeer %d %d" % r.choice(g.pairs())); g.gap(); g.look()
    g.quiet(); g.look()
    return g.text()
def p11(r, i):
    g = G(r, nn=r.choice([1, 1, 2]))
    k = r.random(); d = r.choice([60, 100, 300]); g.delay = d
    if g.nn == 1 or k < 0.5:
        nt = r.choice([1, 1, 2, 3, 5, -1]); port = 9001; mode = r.choice(["refuse", "hole", "unreach", "accept", "drop"]) if not g.tls else r.choice(["refuse", "hole", "unreach"])
        g.add("addpeer 1 9001", "setaddr 1 9001", *(["portmode 9001 %d" % {"hole": 1, "unreach": 2}[mode]] if mode in ("hole", "unreach") else []))
        if mode in ("accept", "drop"): g.add("rawlisten 9001 base=21 hb=1%s" % (" pong=70000" if mode == "drop" else ""))
        if mode == "drop": d = g.delay = 300
        g.gap(); g.add("connpeer 1 9001 %d %d" % (nt, d)); g.gap()
        if mode == "drop": g.add("run 100", "rawclose 21", "rawunlisten 9001")
        elif mode != "accept" and r.random() < 0.5:      # another policy while the first one is in force
            for _ in range(r.choice([1, 1, 2])):
                g.add("run %d" % r.choice([20, 100, 400, 1500])); nt = r.choice([1, 2, 3, -1, -1]); d = r.choice([60, 100, 300, 500]); g.add("connpeer 1 9001 %d %d" % (nt, d)); g.gap()
            g.delay = max(g.delay, d)
        if mode == "accept" and r.random() < 0.5: g.add("run 100", "rawset 21 pong=70000", "rawhs 21 pong 9001 70000", "run 500", "%s 21" % r.choice(["rawclose", "rawreset"]))
        g.add("run %d" % ((abs(nt) if nt > 0 else 6) * (2 * d + 320) + 700), "quiet")
        if mode != "accept" or r.random() < 0.5:
            g.add("run %d" % r.choice([500, 3000]), "quiet")
        if g.nn == 2: g.meet(); g.quiet()
    else:
        g.meet("any", r.choice([-1, -1, 3])); g.gap()
        for _ in range(r.choice([1, 2])): g.disturb(("hole", "reset", "both")); g.gap()
        g.quiet()
    return g.text()
def p11p(r, i):
    """an inbound connection of a connected peer takes over and vanishes"""
    g = G(r, nn=1, tls=False); d = r.choice([60, 200])
    g.add("rawlisten 9001 base=21 hb=1 pong=70000", "addpeer 1 9001", "setaddr 1 9001", "connpeer 1 9001 -1 %d" % d, "run 200")
    for k in range(r.choice([1, 1, 2])):
        x = 31 + k
        g.add("rawconn %d 7001 as=9001 hb=1" % x, "settle", "rawhs %d ping 9001 %d" % (x, r.choice([1, 5, 3000, 65535])))
        if r.random() < 0.5: g.add("steps %d" % r.randrange(1, 60))
        g.add(r.choice(["rawclose %d" % x, "rawreset %d" % x, "rawclose %d" % x, "run 10"]))
        if r.random() < 0.3: g.add("connpeer 1 9001 -1 %d" % d)
        g.gap()
    if r.random() < 0.4: g.add("rawunlisten 9001", "rawclose 21", "rawclose 22")
    g.add("run 3000", "quiet", "run 1000", "quiet")
    return g.text()
def p12(r, i):
    ping = r.choice([0.4, 0.8]); g = G(r, nn=r.choice([1, 2]), ping=ping, ctimeout=r.choice([2, 3])); raw = g.tls is False and (g.nn == 1 or r.random() < 0.5)
    g.tls or None
    if g.nn == 2:
        g.meet("any"); g.quiet()
        k = r.random()
        if k < 0.4: g.add("run %d" % r.choice([4000, 9000]), "quiet")
        elif k < 0.8: g.add("cut 700%d 0" % r.choice([1, 2]), "run %d" % r.choice([1000, 4000, 5000]), "quiet", "run 2500", "quiet", "cut 7001 1", "cut 7002 1"); g.quiet()
        else: g.add("pause %d" % r.choice([1, 2]), "run 6000", "resume 1", "resume 2"); g.quiet()
    if raw:
        g.add("rawlisten 9001 base=21 hb=%d pong=%d" % (r.random() < 0.5, 70000), "addpeer 1 9001", "setaddr 1 9001", "connpeer 1 9001 %d 100" % r.choice([1, -1]), "run %d" % r.choice([100, 500, 1500]))
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < 0.4: g.add("rawset 21 hb=%d" % (r.random() < 0.5))
            elif k < 0.7: g.add("rawhb 21 %s" % r.choice(["ping", "pong"]))
            g.add("run %d" % r.choice([300, 900, 1600, 2500]))
        g.add("quiet", "run %d" % r.choice([2000, 4500]), "quiet")
    return g.text()
def p12i(r, i):
    """connections over which nobody (properly) shakes hands"""
    g = G(r, nn=r.choice([1, 1, 2]), tls=False); x = 31
    if g.nn == 2: g.meet("any")
    g.add("addpeer 1 9001", "setaddr 1 9001")
    if r.random() < 0.5:
        g.add("rawlisten 9001 base=21 hb=%d" % r.randrange(2), "connpeer 1 9001 %d %d" % (r.choice([1, 1, 2, -1]), r.choice([100, 300, 5000])))
    for _ in range(r.choice([1, 1, 2, 3])):
        who = r.choice([9001, 9001, 9009])
        g.add("rawconn %d 7001 as=%d hb=%d" % (x, who, r.randrange(2))); g.gap()
        k = r.random()
        if k < 0.3: pass
        elif k < 0.5: g.add("rawhb %d %s" % (x, r.choice(["ping", "pong"])))
        elif k < 0.7: g.add("rawhs %d ping %d 0" % (x, who))
        elif k < 0.8: g.add("rawhs %d pong 9001 7" % x)
        else: g.add("rawhs %d ping %d 7" % (x, who))
        x += 1; g.gap()
    if r.random() < 0.3: g.add("run 1500", "rawhb %d ping" % (x - 1), "run 1500", "rawhb %d ping" % (x - 1))
    g.add("run 3600", "quiet"); g.quiet()
    return g.text()
def p13(r, i):
    g = G(r, nn=r.choice([2, 3])); n = 0
    if r.random() < 0.5: g.meet("any"); g.gap()
    for _ in range(r.randrange(3, 14)):
        a, b = r.choice(g.pairs()); k = r.random()
        if k < 0.3: g.add("addpeer %d %d" % (a, b))
        elif k < 0.5: g.add("delpeer %d %d" % (a, b), *(["settle"] if r.random() < 0.5 else []))
        elif k < 0.65: g.add("setaddr %d %d" % (a, b))
        elif k < 0.8: g.add("setaddr %d %d" % (a, b), "connpeer %d %d %d 100" % (a, b, r.choice([-1, -1, 2, 0])))
        elif k < 0.9: g.add("haspeer %d %d" % (a, b), "getconn %d %d" % (a, b))
        elif k < 0.95: g.add("setaddr %d %d 0" % (a, b))
        else: g.add("psend %d %d 1 30" % (a, b))
        g.gap()
    g.quiet(); g.look()
    return g.text()
def p13h(r, i):
    """a peer is removed (or its address is changed) while handshakes with it are going on"""
    g = G(r, nn=2); a, b = r.choice(g.pairs()); g.meet("any")
    if r.random() < 0.6: g.quiet(600)
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.8: x, y = r.choice([(a, b), (b, a)]); g.add("setaddr %d %d" % (x, y), "connpeer %d %d %d 100" % (x, y, r.choice([-1, -1, 1, 2])))
        if r.random() < 0.4: g.add("connpeer %d %d -1 100" % (b, a))
        hole = r.random() < 0.3
        if hole: g.L.insert(len(g.L) - r.choice([0, 1, 2]), "portmode 700%d 1" % b)
        g.add(r.choice(["steps %d" % r.randrange(1, r.choice([30, 120, 400])), "run %d" % r.choice([5, 100, 200])]))
        k = r.random()
        if k < 0.7: g.add("delpeer %d %d" % (a, b))
        elif k < 0.8: g.add("setaddr %d %d 0" % (a, b))
        elif k < 0.9: g.add("delpeer %d %d" % (a, b), "addpeer %d %d" % (a, b))
        else: g.add("delpeer %d %d" % (a, b), "delpeer %d %d" % (b, a))
        if r.random() < 0.5: g.add("settle")
        g.gap()
        if hole: g.add("portmode 700%d 0" % b)
    g.quiet(); g.look()
    return g.text()
def p14(r, i):
    g = G(r, sbuf=0); g.meet("any")
    def sends():
        for _ in range(r.randrange(1, 5)):
            a, b = r.choice(g.pairs())
            g.add("%s %d %d %d %d %s" % (r.choice(["psend", "psend", "psendd"]), a, b, r.randrange(1, 9), size(r, 3000), r.choice(["c", "c", "u", "h1"])))
            if r.random() < 0.5: g.gap()
    sends()
    for _ in range(r.choice([0, 1, 1, 2])): g.disturb(("reset", "term", "redial", "both", "stall", "hole")); g.gap(); sends()
    g.quiet()
    if r.random() < 0.3: sends(); g.quiet()
    return g.text()
def p14r(r, i):
    """threads keep sending while the connection is being replaced"""
    g = G(r, nn=2, tls=False, noncemod=False); g.meet(r.choice(["both", "one"]))
    g.L[0] = "sim seed=%d policy=%d psys=0.3 plock=%s patomic=%s pcb=0.3 pcas=0 pcreep=%s cap=%d seg=%d recvmax=1048576 maxsteps=8000000" % (
        r.randrange(1, 1 << 31), r.choice([0, 0, 1]), r.choice([0.1, 0.5]), r.choice([0.05, 0.3]), r.choice([0.002, 0.01, 0.05]), r.choice([300, 2000, 1 << 20]), r.choice([100, 65536]))
    if r.random() < 0.6: g.add("run 400")
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        for _ in range(r.choice([1, 2])):
            a, b = r.choice(g.pairs()); g.add("psend %d %d %d %d %s" % (a, b, r.randrange(3, 25), r.randrange(12, 200), r.choice(["h1", "h2", "u"])))
        if r.random() < 0.7: g.add("steps %d" % r.randrange(1, 40))
        if k < 0.4: g.add("cut 700%d 2" % r.choice([1, 2]))
        elif k < 0.8: g.add("term %d 0" % r.choice([1, 2]))
        else: a, b = r.choice(g.pairs()); g.add("setaddr %d %d" % (a, b), "connpeer %d %d -1 100" % (a, b))
        if r.random() < 0.5:       # sending right when the next handshake is due
            g.add("run %d" % r.choice([60, 80, 95]))
            for _ in range(r.choice([1, 2])): a, b = r.choice(g.pairs()); g.add("psend %d %d %d %d h1" % (a, b, r.choice([100, 250]), r.choice([12, 40])))
            g.add("run 80")
        for _ in range(r.choice([0, 1, 2])):
            a, b = r.choice(g.pairs()); g.add("psend %d %d %d %d %s" % (a, b, r.randrange(3, 25), r.randrange(12, 200), r.choice(["h1", "h2", "c"])))
        g.add("run %d" % r.choice([30, 120, 400]))
    g.quiet()
    return g.text()
def p14g(r, i):
    """threads send at the very moment the connection is replaced"""
    g = G(r, nn=2, tls=False, noncemod=False); g.meet(r.choice(["both", "one"]))
    g.L[0] = "sim seed=%d policy=%d psys=%s plock=%s patomic=%s pcb=%s pcas=0 pcreep=0 cap=%d seg=65536 recvmax=1048576 maxsteps=8000000" % (
        r.randrange(1, 1 << 31), r.choice([0, 1, 1]), r.choice([.1, .3, 1]), r.choice([.1, 1]), r.choice([1, .3]), r.choice([.3, 1]), r.choice([2000, 1 << 20]))
    g.add("run 600")
    for _ in range(3):
        a, b = r.choice(g.pairs())
        k = r.random()
        if k < 0.8: g.add("connpeer %d %d -1 100" % (a, b))
        elif k < 0.9: g.add("term %d 0" % a)
        else: g.add("cut 700%d 2" % a)
        if r.random() < .5: g.add("steps %d" % r.randrange(1, 60))
        for _ in range(r.choice([1, 2])):
            if r.random() < .5: a, b = b, a
            g.add("psend %d %d %d %d %s" % (a, b, r.choice([30, 100, 250, 500]), r.choice([12, 40]), r.choice(["h1", "g", "g"])))
        g.add("run %d" % r.choice([10, 100, 400]))
    g.quiet()
    return g.text()
def p20(r, i):
    g = G(r, nn=3)
    if r.random() < 0.7: g.meet("any"); g.gap()
    for _ in range(r.randrange(3, 10)):
        a, b = r.choice(g.pairs()); k = r.random()
        if k < 0.15: g.add("addpeer %d %d" % (a, b))
        elif k < 0.25: g.add("delpeer %d %d" % (a, b))
        elif k < 0.35: g.add("setaddr %d %d" % (a, b))
        elif k < 0.45: g.add("connpeer %d %d -1 100" % (a, b))
        elif k < 0.6: g.add("psendd %d %d %d %d" % (a, b, r.randrange(1, 4), size(r, 2000)))
        else:
            t = [m for m in g.nets() if m != a]; r.shuffle(t)
            g.add("mcast %d %s %d %d" % (a, ",".join(map(str, t[:r.choice([1, 2, 2])])), r.randrange(1, 4), size(r, 2000)))
        if r.random() < 0.4: g.gap()
    g.quiet()
    return g.text()

def p20t(r, i):
    """several threads ask for things at the same time"""
    g = G(r, nn=2, sbuf=0); g.meet("any"); g.gap()
    if r.random() < 0.4: g.add("delpeer %d %d" % r.choice(g.pairs()), "settle")
    for _ in range(r.randrange(2, 5)):
        a, b = r.choice(g.pairs())
        for _ in range(r.choice([2, 2, 3])): g.add("psendd %d %d %d %d %s" % (a, b, r.randrange(1, 5), size(r, 300), r.choice(["h1", "h1", "h2", "u", "c"])))
        g.gap()
        if r.random() < 0.3: g.add("join", "settle")
    g.quiet()
    return g.text()

# ---- with bounded send buffers (on queues whose blocks hold 4 elements)
def p12s(r, i):
    """heartbeats have to get through whatever the user sends"""
    sb = r.choice([1, 4, 8]); g = G(r, nn=2, ping=r.choice([0.4, 0.8]), ctimeout=r.choice([2, 3]), sbuf=sb)
    g.meet("any"); g.quiet()
    for _ in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([1, 2, 3])):
            a, b = r.choice(g.pairs()); g.add("psend %d %d %d %d %s" % (a, b, r.choice([4, 12, 40]), size(r, 2000), r.choice(["c", "u", "h1", "h2"])))
            if r.random() < 0.5: g.add("run %d" % r.choice([50, 200, 400]))
        g.add("run %d" % r.choice([300, 900, 2500]))
    g.quiet(); g.add("run 3000", "quiet")
    return g.text()
def p12h(r, i):
    """a peer which does not read for a while: the send buffer stays full when the heartbeats are due"""
    sb = r.choice([1, 4, 8]); g = G(r, nn=1, ping=r.choice([0.4, 0.8]), ctimeout=r.choice([2, 3]), sbuf=sb, tls=False)
    g.add("rawlisten 9001 base=21 hb=1 pong=70000", "addpeer 1 9001", "setaddr 1 9001", "connpeer 1 9001 %d 100" % r.choice([1, -1]), "run %d" % r.choice([100, 500, 1500]), "quiet")
    for _ in range(r.choice([1, 2])):
        g.add("rawhold 21 1", "psend 1 9001 %d %d %s" % (r.choice([10, 40]), size(r, 3000), r.choice(["c", "u", "h1"])))
        if r.random() < 0.5: g.add("rawhb 21 ping")
        g.add("run %d" % r.choice([500, 900, 1200]), "rawhold 21 0", "run %d" % r.choice([200, 1500]))
    g.add("quiet", "run 4500", "quiet")
    return g.text()
def p14s(r, i):
    g = G(r, nn=2, sbuf=r.choice([1, 4, 8, 12])); g.meet("any")
    def sends():
        for _ in range(r.randrange(1, 6)):
            a, b = r.choice(g.pairs())
            g.add("psend %d %d %d %d %s" % (a, b, r.randrange(1, 16), size(r, 1000), r.choice(["c", "c", "u", "h1"])))
            if r.random() < 0.5: g.gap()
    sends()
    for _ in range(r.choice([0, 1, 1, 2])): g.disturb(("reset", "term", "redial", "both", "stall", "hole")); g.gap(); sends()
    g.quiet()
    if r.random() < 0.3: sends(); g.quiet()
    return g.text()
def p20s(r, i):
    """deferred sends and multicasts into bounded send buffers"""
    g = G(r, nn=3, sbuf=r.choice([1, 4, 8])); g.meet("any"); g.gap()
    for _ in range(r.randrange(3, 10)):
        a, b = r.choice(g.pairs()); k = r.random()
        if k < 0.1: g.add("connpeer %d %d -1 100" % (a, b))
        elif k < 0.2: g.disturb(("reset", "stall", "hole"))
        elif k < 0.6: g.add("psendd %d %d %d %d" % (a, b, r.randrange(1, 14), size(r, 1000)))
        else:
            t = [m for m in g.nets() if m != a]; r.shuffle(t)
            g.add("mcast %d %s %d %d" % (a, ",".join(map(str, t[:r.choice([1, 2, 2])])), r.randrange(1, 9), size(r, 1000)))
        if r.random() < 0.4: g.gap()
    g.quiet()
    return g.text()
def p20m(r, i):
    """one receiver does not read until its send buffer is full; the other receivers of a multicast must not suffer"""
    g = G(r, nn=3, sbuf=r.choice([24, 32, 40])); g.meet("both"); g.quiet()
    a = r.choice(list(g.nets())); rest = [m for m in g.nets() if m != a]; r.shuffle(rest); b = rest[0]
    g.add("cut 700%d 0" % b, "cut 700%d 0 1" % b, "cut 700%d 0 2" % b) if r.random() < 0.7 else g.add("pause %d" % b)
    g.add("psendd %d %d %d %d" % (a, b, r.choice([20, 50, 80]), size(r, 3000))) if r.random() < 0.5 else g.add("psend %d %d %d %d %s" % (a, b, r.choice([50, 80]), size(r, 3000), r.choice(["c", "u"])))
    if r.random() < 0.7: g.add("settle")
    for _ in range(r.choice([1, 2, 3])):
        t = list(rest); r.shuffle(t)
        g.add("mcast %d %s %d %d" % (a, ",".join(map(str, t)), r.randrange(1, 6), size(r, 1000)))
        if r.random() < 0.4: g.add("psendd %d %d %d %d" % (a, rest[1], r.randrange(1, 5), size(r, 1000)))
        if r.random() < 0.4: g.gap()
    g.add("settle", "cut 700%d 1" % b, "resume %d" % b); g.quiet()
    return g.text()

def p08(r, i):
    """everything at once; what matters is which thread the callbacks run on"""
    return r.choice([p09, p10, p11, p13, p13, p14, p20])(r, i)
