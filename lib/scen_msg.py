"""Scenario generators for the message network family (scripts for sim/driver)."""

def simline(r, heavy=False, timers=False):
    pol = r.choice([0, 0, 1])
    pat = r.choice([0, 0.01, 0.05, 0.3])
    cap = r.choice([64, 300, 2000, 20000, 1 << 20])
    seg = r.choice([1, 7, 100, 3000, 65536, 65536])
    rm = r.choice([1 << 20, 1 << 20, 50, 5])
    if heavy:
        pat = r.choice([0, 0.001]); cap = r.choice([20000, 1 << 20]); seg = 65536; rm = 1 << 20
    return "sim seed=%d policy=%d psys=%s plock=%s patomic=%s pcb=%s pcas=%s pcreep=%s cap=%d seg=%d recvmax=%d maxsteps=%d" % (
        r.randrange(1, 1 << 31), pol, r.choice([0.1, 0.3, 0.8]), r.choice([0, 0.05, 0.3]), pat, r.choice([0.1, 0.5]),
        r.choice([0, 0, 0.1]), r.choice([0, 0.05]) if timers else 0, cap, seg, rm, 8000000)

def netline(r, i, kind="msg", tls=False, **kw):
    o = dict(kind=kind, nworker=r.choice([1, 1, 2, 3]), chunk=r.choice([16, 64, 700, 4096]), rbuf=r.choice([1, 2, 8, 4096]),
             burst=r.choice([1, 3, 1000]), maxmsg=r.choice([20000, 65536]))
    if tls:
        o["tls"] = 1
    o.update(kw)
    return "net %d %s" % (i, " ".join("%s=%s" % kv for kv in o.items()))

def size(r, mx=9000):
    k = r.random()
    if k < 0.4:
        return r.randrange(12, 80)
    if k < 0.8:
        return r.randrange(12, min(600, mx))
    return r.randrange(min(600, mx - 1), mx)

def topo(r, tls, nn=None, **kw):
    """nets started, net 1 listens, the others connect"""
    nn = nn or r.choice([2, 2, 3])
    L = [netline(r, i, tls=tls, **kw) for i in range(1, nn + 1)]
    L += ["start %d" % i for i in range(1, nn + 1)]
    L += ["listen 1"]
    for i in range(2, nn + 1):
        for _ in range(r.choice([1, 1, 2])):
            L.append("%s %d 7001" % (r.choice(["connect", "connect", "uconnect", "connects"]), i))
    if r.random() < 0.3:
        L += ["listen 2", "connect 1 7002"]
    L.append(r.choice(["settle", "settle", "run 20"]))
    return nn, L

def traffic(r, nn, n=None, mx=9000, maxbatch=12):
    L = []; hs = 0
    for _ in range(n or r.randrange(2, 9)):
        net = r.randrange(1, nn + 1); k = r.randrange(0, 3)
        cmd = r.random()
        if cmd < 0.55:
            L.append("send %d %d %d %d %s" % (net, k, r.randrange(1, maxbatch), size(r, mx), r.choice(["c", "c", "u", "h%d" % r.randrange(1, 4)])))
        elif cmd < 0.7:
            L.append("sendd %d %d %d %d %s" % (net, k, r.randrange(1, 6), size(r, mx), r.choice(["c", "u"])))
        elif cmd < 0.76:
            L.append("sendop %d %d %d %d %d" % (net, k, r.randrange(1, 4), r.randrange(20, 200), r.choice([3, 4])))
        elif cmd < 0.8:
            L.append("send0 %d %d" % (net, k))
        elif cmd < 0.9:
            L.append("steps %d" % r.randrange(1, 60))
        else:
            L.append("settle")
    return L

def fin(L):
    return L + ["join", "settle", "quiet"]

def p01(r, i):
    tls = r.random() < 0.4
    nn, L = topo(r, tls, echo=r.choice([0, 0, 0, 1]) if r.random() < 0.0 else 0)
    L = [simline(r)] + L + traffic(r, nn)
    L = fin(L)
    if r.random() < 0.4:
        L += traffic(r, nn, 4)
        L += [r.choice(["term %d 0" % r.randrange(1, nn + 1), "cut 7001 2 0", "cut 7001 0 0"])]
        if r.random() < 0.5:
            L += traffic(r, nn, 3)
        L = fin(L)
        if "cut 7001 0 0" in L:
            L = fin(L + ["cut 7001 1"])
    if r.random() < 0.3:
        L += ["connect 2 7001", "settle"] + traffic(r, nn, 4)
        L = fin(L)
    return "\n".join(L)

# ---- the same on queues whose blocks hold 4 elements, so that every bound is met after a handful of messages
BLK = 4
def p01s(r, i):
    tls = r.random() < 0.3
    nn, L = topo(r, tls, qsize=r.choice([1, 1, 8, 12, 65536]), rbuf=r.choice([1, 2, 3, 8]), burst=r.choice([1, 2, 1000]))
    L = [simline(r)] + L + traffic(r, nn, mx=r.choice([200, 3000]), maxbatch=30)
    if r.random() < 0.4:
        L += ["pause 1"] + traffic(r, nn, 3, mx=300, maxbatch=30) + [r.choice(["settle", "steps 200", "run 3"]), "resume 1"] + traffic(r, nn, 2, mx=300)
    L = fin(L)
    if r.random() < 0.3:
        L += traffic(r, nn, 4, maxbatch=30) + [r.choice(["term %d 0" % r.randrange(1, nn + 1), "cut 7001 2 0", "cut 7001 0 0"])]
        if r.random() < 0.5: L += traffic(r, nn, 3)
        L = fin(L)
        if "cut 7001 0 0" in L: L = fin(L + ["cut 7001 1"])
    return "\n".join(L)

def p03s(r, i):
    """user loops held up at any moment, traffic both ways, tiny buffers"""
    tls = r.random() < 0.2
    kw = lambda: dict(qsize=r.choice([1, 4, 8, 17]), rbuf=r.choice([1, 2, 3, 5]), chunk=r.choice([16, 64, 700]), burst=r.choice([1, 3, 1000]))
    L = [simline(r), netline(r, 1, tls=tls, **kw()), netline(r, 2, tls=tls, **kw()), "start 1", "start 2", "listen 1", "connect 2 7001"]
    if r.random() < 0.3: L.append("connect 2 7001")
    raw = r.random() < 0.7
    if raw: L.append("rawconn 11 7001" + (" tls=3" if tls else ""))
    L += ["settle"]
    paused = set()
    for _ in range(r.randrange(5, 14)):
        k = r.random()
        if k < 0.2:
            n = r.choice([1, 1, 2])
            if n in paused: L.append("resume %d" % n); paused.discard(n)
            else: L.append("pause %d" % n); paused.add(n)
        elif raw and k < 0.45: L.append("rawmsg 11 %d %d ok" % (r.choice([3, 20, 60]), r.choice([12, 20, 60, 200])))
        elif k < 0.8: L.append("send %d %d %d %d %s" % (r.choice([1, 2]), r.choice([0, 1]), r.choice([2, 10, 40]), r.choice([12, 24, 100, 900]), r.choice(["c", "u", "h1"])))
        else: L.append(r.choice(["settle", "run 5", "steps 40", "steps 300"]))
        if paused and r.random() < 0.2: L += ["run 5", "absorb"]
    L += ["join", "settle"] + (["absorb"] if 1 in paused else []) + ["resume %d" % n for n in sorted(paused)]
    L = fin(L)
    if r.random() < 0.4: L = fin(L + traffic(r, 2, 3, mx=300))
    return "\n".join(L)

def p04s(r, i):
    """bounded send buffers of active and passive connections, from several threads"""
    tls = r.random() < 0.2
    sb = r.choice([1, 4, 8, 12, 19])
    L = [simline(r), netline(r, 1, tls=tls, sbuf=sb), netline(r, 2, tls=tls, sbuf=r.choice([0, sb])), "start 1", "start 2", "listen 1", "connect 2 7001"]
    raws = []
    if r.random() < 0.7: L.append("rawconn 11 7001" + (" tls=3" if tls else "")); raws.append(11)
    if r.random() < 0.6 or not raws: L += ["rawlisten 9001 base=21" + (" tls=4" if tls else ""), "connect 1 9001"]; raws.append(21)
    L += ["settle"]; held = set()
    for _ in range(r.randrange(4, 12)):
        k = r.random()
        if k < 0.25:
            x = r.choice(raws)
            L.append("rawhold %d %d" % (x, 0 if x in held else 1)); held ^= {x}
        elif k < 0.8: L.append("send 1 %d %d %d %s" % (r.choice([0, 1, 1, 2]), r.choice([2, 8, 20, 60]), r.choice([12, 60, 300]), r.choice(["c", "u", "h1", "h2"])))
        else: L.append(r.choice(["settle", "steps 30", "steps 200", "join"]))
    L += ["join", "settle", "quiet"] + ["rawhold %d 0" % x for x in sorted(held)] + ["settle"]
    L += ["send 1 %d %d 33 c" % (k, r.randrange(1, sb + 1)) for k in (0, 1, 2)]
    if r.random() < 0.3: L += ["rawrst %d" % raws[0]]
    return "\n".join(fin(L))

def rawbad(r, rid, maxmsg):
    k = r.random()
    if k < 0.25: return "rawmsg %d %d %d badsum" % (rid, r.randrange(1, 4), r.randrange(12, min(300, maxmsg) + 1))
    if k < 0.45: return "rawmsg %d %d %d flip" % (rid, r.randrange(1, 3), r.randrange(12, min(300, maxmsg) + 1))
    if k < 0.6: return "rawmsg %d %d %d unkop" % (rid, r.randrange(1, 4), r.randrange(12, 100))
    if k < 0.7: return "rawmsg %d 1 %d over %d" % (rid, r.randrange(12, min(300, maxmsg) + 1), r.choice([maxmsg + 1, maxmsg + 100, 0x7fffffff, 0xffffffff, 0xfffffff3]))
    if k < 0.75: return "rawmsg %d %d %d over -1" % (rid, r.choice([1, 1, 2]), maxmsg + r.choice([1, 2, 50, 700]))
    if k < 0.82: return "rawmsg %d 1 %d poison" % (rid, r.choice([30, 31, 32]))
    if k < 0.89: return "rawmsg %d 1 %d part %d" % (rid, r.randrange(12, min(300, maxmsg) + 1), r.randrange(1, 12))
    return "rawbytes %d %s" % (rid, "".join("%02x" % r.randrange(256) for _ in range(r.choice([1, 5, 13, 14, 40, 200]))))

def rawgood(r, rid):
    k = r.random()
    if k < 0.7: return "rawmsg %d %d %d ok" % (rid, r.randrange(1, 8), size(r, 3000))
    if k < 0.8: return "rawmsg %d %d 0 empty" % (rid, r.randrange(1, 3))
    return "rawmsg %d %d %d %s" % (rid, r.randrange(1, 3), r.randrange(20, 90), r.choice(["op3", "op4"]))

def p02(r, i):
    tls = r.random() < 0.3
    mx = r.choice([200, 1024, 4000])
    small = r.random() < 0.5
    kw = dict(maxmsg=20000)
    if small: kw.update(qsize=1)
    L = [simline(r, heavy=small and r.random() < 0.5), netline(r, 1, tls=tls, **dict(kw, maxmsg=mx)), netline(r, 2, tls=tls, **dict(kw, maxmsg=mx)), "start 1", "start 2", "listen 1", "connect 2 7001"]
    nr = r.choice([1, 1, 2]); raws = list(range(11, 11 + nr))
    if r.random() < 0.4:
        L += ["rawlisten 9001 base=21%s" % (" tls=4" if tls else ""), "connect 1 9001"]; raws.append(21)
    for x in range(11, 11 + nr):
        L.append("rawconn %d 7001%s" % (x, (" tls=%d" % r.choice([3, 4, 5])) if tls and r.random() < 0.8 else ""))
    L.append(r.choice(["settle", "steps 30"]))
    for _ in range(r.randrange(3, 10)):
        k = r.random()
        if k < 0.45: L.append(rawbad(r, r.choice(raws), mx))
        elif k < 0.75:
            g = rawgood(r, r.choice(raws)).split(); 
            if len(g) > 3 and int(g[3]) > mx: g[3] = str(r.choice([mx, r.randrange(12, mx + 1)]))
            L.append(" ".join(g))
        elif k < 0.85: L.append("send %d 0 %d %d %s" % (r.choice([1, 2]), r.randrange(1, 6), r.randrange(12, mx + 1), r.choice(["c", "u"])))
        elif k < 0.93: L.append("steps %d" % r.randrange(1, 60))
        else: L.append("settle")
        if small and r.random() < 0.3:
            L += ["pause 1", "rawmsg %d 8200 12 ok" % raws[0], rawbad(r, raws[0], mx), "settle", "run 10", "resume 1"]
            small = False
    if r.random() < 0.3: L.append(r.choice(["rawclose", "rawrst"]) + " %d" % r.choice(raws))
    return "\n".join(fin(L))

def p03(r, i):
    """the user loop of a receiver is held up while others keep sending"""
    tls = r.random() < 0.2
    q = r.choice([1, 1, 4096, 9000])
    kw = dict(qsize=q, rbuf=r.choice([2, 8, 64]), chunk=r.choice([64, 700, 4096]))
    L = [simline(r, heavy=True), netline(r, 1, tls=tls, **kw), netline(r, 2, tls=tls), "start 1", "start 2", "listen 1", "connect 2 7001"]
    if r.random() < 0.3: L.append("connect 2 7001")
    raw = r.random() < 0.7
    if raw: L.append("rawconn 11 7001" + (" tls=3" if tls else ""))
    L += ["settle"]
    cap = (max(q // 4096, 1) + 1) * 4096
    if r.random() < 0.5: L += ["send 2 0 %d %d c" % (r.randrange(1, 30), size(r, 400))]
    L += ["pause 1"]
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if raw and k < 0.6: L.append("rawmsg 11 %d %d ok" % (r.choice([cap + 10, cap // 2, cap + 4000, 300]), r.choice([12, 20, 60])))
        elif k < 0.9: L.append("send 2 %d %d %d %s" % (r.choice([0, 1]), r.choice([cap + 10, cap + 3000, 500]), r.choice([12, 24]), r.choice(["c", "u", "h1"])))
        else: L.append("send 1 0 5 40 c")
        L.append(r.choice(["settle", "run 5", "steps 40"]))
    L += ["join", "run 10", "absorb"]
    L += ["quiet", "resume 1"]
    if r.random() < 0.3: L += ["settle", "pause 1", "send 2 0 %d 12 c" % (cap + 500), "join", "settle", "absorb", "resume 1"]
    return "\n".join(fin(L))

def p04(r, i):
    """bounded send buffers: a remote end which does not read, or reads in bursts"""
    tls = r.random() < 0.2
    sb = r.choice([1, 4096, 5000, 8192])
    cap = (max(sb // 4096, 1) + 1) * 4096
    L = [simline(r, heavy=True), netline(r, 1, tls=tls, sbuf=sb), netline(r, 2, tls=tls, sbuf=r.choice([0, sb])), "start 1", "start 2", "listen 1", "connect 2 7001",
         "rawconn 11 7001" + (" tls=3" if tls else ""), "settle"]
    if r.random() < 0.5: L += ["send 1 %d %d %d c" % (r.choice([0, 1]), r.randrange(1, 50), size(r, 300))]
    L += ["rawhold 11 1"]
    for _ in range(r.randrange(1, 4)):
        L.append("send 1 %d %d %d %s" % (r.choice([0, 1, 1]), r.choice([cap + 300, cap // 2 + 7, cap + 5000, 200]), r.choice([12, 60, 300]), r.choice(["c", "u", "h1", "h2"])))
        k = r.random()
        if k < 0.3: L.append("steps %d" % r.randrange(1, 50))
        elif k < 0.5: L.append("settle")
    L += ["join"]
    if r.random() < 0.5: L += ["settle", "send 1 %d %d 20 c" % (r.choice([0, 1]), r.randrange(1, 200))]
    L += ["settle", "quiet", "rawhold 11 0", "settle"]
    L += ["send 1 1 %d 33 c" % r.randrange(1, 50), "send 1 0 %d 33 c" % r.randrange(1, 50)]
    if r.random() < 0.3: L += ["rawrst 11"]
    return "\n".join(fin(L))

def p05(r, i):
    """connection churn"""
    tls = r.random() < 0.35
    nn = r.choice([2, 2, 3])
    kw = {}
    L = [simline(r)] + [netline(r, j, tls=tls, onup=r.choice([0, 0, 0, 1, 2]) if r.random() < 0.4 else 0, refuse=r.choice([0, 0, 2, 3]) if tls else 0,
                                termrecv=r.choice([0, 0, 0, 1, 3]), echo=0) for j in range(1, nn + 1)]
    L += ["start %d" % j for j in range(1, nn + 1)] + ["listen 1"]
    if r.random() < 0.4: L.append("listen 2")
    rawn = [11]
    for _ in range(r.randrange(4, 16)):
        k = r.random(); n = r.randrange(1, nn + 1)
        if k < 0.22: L.append("%s %d 7001" % (r.choice(["connect", "uconnect", "connects"]), n))
        elif k < 0.27: L.append("connect %d %d" % (n, r.choice([7002, 7099])))
        elif k < 0.37: L.append("rawconn %d 7001%s" % (rawn[0], (" tls=%d" % r.choice([3, 4])) if tls and r.random() < 0.8 else "")); rawn[0] += 1
        elif k < 0.47: L.append("%s %d" % (r.choice(["rawclose", "rawrst"]), r.randrange(11, rawn[0] + 1)))
        elif k < 0.60: L.append("%s %d %d" % (r.choice(["term", "term", "xterm"]), n, r.randrange(3)))
        elif k < 0.66: L.append("cut 7001 2 %d" % r.randrange(3))
        elif k < 0.76: L.append("send %d %d %d %d %s" % (n, r.randrange(3), r.randrange(1, 5), size(r, 2000), r.choice(["c", "u", "h1"])))
        elif k < 0.80: L.append("rawmsg %d 2 40 ok" % r.randrange(11, rawn[0] + 1))
        elif k < 0.82: L += ["settle", "listen 1"]
        elif k < 0.92: L.append("steps %d" % r.randrange(1, 80))
        else: L.append("settle")
    L = fin(L)
    if r.random() < 0.3:
        L = fin(L + ["term 1 0", "connect 2 7001", "settle", "send 2 0 3 50 c", "xterm 2 0"])
    return "\n".join(L)

def p06(r, i):
    """connection attempts to all kinds of destinations"""
    tls = r.random() < 0.2
    ct = [r.choice([0.2, 1, 2]) for _ in range(2)]
    L = [simline(r, timers=True), netline(r, 1, tls=tls, cto=ct[0]), netline(r, 2, tls=tls, cto=ct[1]), "start 1", "start 2"]
    if r.random() < 0.7: L.append("listen 1")
    if r.random() < 0.4: L.append("rawlisten 9001 base=21" + (" tls=3" if tls else ""))
    ports = [7001, 7001, 9001, 9002, 9003]
    if r.random() < 0.5: L.append("portmode 9002 1")
    if r.random() < 0.5: L.append("portmode 9003 2")
    if r.random() < 0.3: L.append("portmode %d %d" % (r.choice([7001, 9001, 9002]), r.choice([100, 300, 600, 1500])))
    for _ in range(r.randrange(2, 9)):
        k = r.random()
        if k < 0.55: L.append("%s %d %d" % (r.choice(["connect", "uconnect", "connects"]), r.choice([1, 2]), r.choice(ports)))
        elif k < 0.62: L.append("xterm %d %d" % (r.choice([1, 2]), r.randrange(3)))
        elif k < 0.66: L.append("term %d %d" % (r.choice([1, 2]), r.randrange(3)))
        elif k < 0.72: L.append("listen 1")
        elif k < 0.75: L.append("rawunlisten 9001")
        elif k < 0.85: L.append("steps %d" % r.randrange(1, 40))
        elif k < 0.92: L.append("run %d" % r.choice([50, 250, 1500]))
        else: L.append("settle")
    if r.random() < 0.6: L += ["join", "run %d" % int(max(ct) * 1000 + 500), "quiet"]
    L += ["run 6000"]
    L = fin(L)
    if r.random() < 0.5:
        L = fin(L + ["connect 2 7001", "run 5000"])
    return "\n".join(L)

def p06f(r, i):
    """descriptor exhaustion while connecting: the attempt is reported as failed, later ones work"""
    L = [simline(r), netline(r, 1), netline(r, 2), "start 1", "start 2", "listen 1", "connect 2 7001", "settle"]
    for _ in range(r.randrange(1, 3)):
        L += ["fail socket %d %d" % (r.choice([24, 23, 105]), r.choice([1, 2]))] + ["%s 2 7001" % r.choice(["connect", "connects", "uconnect"]) for _ in range(r.randrange(1, 4))] + [r.choice(["settle", "steps 20"])]
    L += ["run 5000", "quiet", "connect 2 7001", "rawconn 11 7001", "settle", "send 2 0 3 40 c", "run 5000"]
    return "\n".join(fin(L))

def p07(r, i):
    """TLS admission"""
    L = [simline(r)]
    nn = r.choice([2, 3])
    for j in range(1, nn + 1):
        kw = {}
        if j > 1 and r.random() < 0.12: kw["key"] = j % 5 + 1
        L.append(netline(r, j, tls=not (j == nn and r.random() < 0.25), refuse=r.choice([0, 0, 0, 1, 2]), **kw))
    L += ["start %d" % j for j in range(1, nn + 1)] + ["listen 1", "listen 2"]
    if r.random() < 0.4: L.append("rawlisten 9001 base=31" + r.choice([" tls=4", " tls=0", "", " tls=5"]))
    rid = 11
    for _ in range(r.randrange(2, 8)):
        k = r.random(); n = r.randrange(1, nn + 1)
        if k < 0.35: L.append("%s %d %d" % (r.choice(["connect", "uconnect", "connects"]), n, r.choice([7001, 7001, 7002, 9001])))
        elif k < 0.65:
            L.append("rawconn %d 7001%s" % (rid, r.choice([" tls=0", " tls=3", " tls=4", " tls=5", "", " tls=4"]))); rid += 1
        elif k < 0.75: L.append("rawmsg %d %d 40 ok" % (r.randrange(11, rid + 1), r.randrange(1, 4)))
        elif k < 0.8: L.append("rawbytes %d %s" % (r.randrange(11, rid + 1), "".join("%02x" % r.randrange(256) for _ in range(r.choice([1, 6, 40])))))
        elif k < 0.9: L.append("send %d %d 2 60 c" % (n, r.randrange(2)))
        elif k < 0.93: L.append("rawclose %d" % r.randrange(11, rid + 1))
        else: L.append("steps %d" % r.randrange(1, 60))
    L += ["settle"] + ["rawmsg %d 2 40 ok" % x for x in range(11, rid)] + ["send %d 0 2 60 c" % r.randrange(1, nn + 1), "run 2000"]
    return "\n".join(fin(L))

def p21(r, i):
    """stopping and destroying a network at any moment"""
    tls = r.random() < 0.3
    nn = r.choice([2, 2, 3])
    kind = r.choice(["msg", "msg", "client", "peer"])
    L = [simline(r)]
    for j in range(1, nn + 1):
        L.append(netline(r, j, kind=kind if (j == 1 or kind == "peer") else "msg", tls=tls, qsize=r.choice([1, 65536]), sbuf=r.choice([0, 0, 4096])) + (" stoprecv=%d" % r.randrange(1, 8) if r.random() < 0.15 else ""))
    L += ["start %d" % j for j in range(1, nn + 1)] + ["listen %d" % j for j in range(1, nn + 1)]
    cmds = []
    for _ in range(r.randrange(2, 9)):
        k = r.random(); n = r.randrange(1, nn + 1)
        if kind == "peer":
            m = n % nn + 1
            cmds.append(r.choice(["addpeer %d %d" % (n, m), "setaddr %d %d" % (n, m), "connpeer %d %d -1 100" % (n, m), "psend %d %d 3 40 c" % (n, m), "steps %d" % r.randrange(1, 60), "run 50"]))
        elif k < 0.4: cmds.append("connect %d 7001" % (n if n != 1 or kind != "client" else 2))
        elif k < 0.5: cmds.append("rawconn %d 7001" % (11 + len(cmds)))
        elif k < 0.75: cmds.append("send %d %d %d %d %s" % (n, r.randrange(2), r.choice([3, 20]), size(r, 3000), r.choice(["c", "u"])))
        elif k < 0.8: cmds.append("connect %d 7098" % (n if n != 1 or kind != "client" else 2))
        else: cmds.append("steps %d" % r.randrange(1, 100))
    if kind == "peer":
        cmds = ["addpeer 1 2", "addpeer 2 1", "setaddr 1 2", "setaddr 2 1", "connpeer 1 2 -1 100", "connpeer 2 1 -1 100", "steps %d" % r.randrange(1, 300)] + cmds
    L += cmds
    order = list(range(1, nn + 1)); r.shuffle(order)
    for j in order:
        L.append(r.choice(["steps %d" % r.randrange(1, 60), "settle", "steps 0"]))
        k = r.random()
        if k < 0.25: L += ["ustop %d" % j]
        elif k < 0.4: L += ["ustopk %d" % j, r.choice(["settle", "steps %d" % r.randrange(1, 100)]), "stoploop %d" % j]
        elif k < 0.6: L += ["stoploop %d" % j, r.choice(["stop %d", "stopw %d"]) % j]
        elif k < 0.8: L += ["stop %d" % j, "stoploop %d" % j]
        else: L += ["stoploop %d" % j]
        if r.random() < 0.3: L.append("settle")
        L.append("del %d" % j)
    L += ["settle", "quiet"]
    return "\n".join(L)

def p21s(r, i):
    """the same with queues which are full"""
    t = p21(r, i).split("\n"); L = []; held = set()
    for l in t:
        if l.startswith("net "): l += " qsize=%d sbuf=%d rbuf=%d" % (r.choice([1, 4, 8]), r.choice([0, 1, 8]), r.choice([1, 2]))
        if l.startswith("send "): f = l.split(); f[3] = str(r.choice([10, 30])); l = " ".join(f)
        f = l.split()
        if f[0] in ("ustop", "ustopk", "stop", "stopw", "stoploop") and f[1] in held: L.append("resume " + f[1]); held.discard(f[1])
        L.append(l)
        if f[0] == "listen" and r.random() < 0.2: L.append("pause " + f[1]); held.add(f[1])
    return "\n".join(L)
def p02s(r, i):
    L = []
    for l in p02(r, i).split("\n"):
        if l.startswith("net "): l += " qsize=%d rbuf=%d" % (r.choice([1, 4, 8]), r.choice([1, 2, 3]))
        if l.startswith("rawmsg "):     # the blocks hold 4 messages only
            f = l.split(); f[2] = str(min(int(f[2]), 60)); l = " ".join(f)
        L.append(l)
    return "\n".join(L)
def p08(r, i):
    """everything at once; what matters is which thread the callbacks run on"""
    return r.choice([p01, p02, p05, p06, p07, p21])(r, i)
