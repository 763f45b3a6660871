"""Scenario generators for the client network."""
from scen_msg import simline, netline, size

def p19(r, i):
    tls = r.random() < 0.15; sb = r.random() < 0.15
    L = [simline(r)]
    kw = dict(sbuf=r.choice([1, 4096])) if sb else {}
    L.append(netline(r, 1, kind="client", tls=tls, **kw))
    nn = 0 if r.random() < 0.5 and not tls else r.choice([1, 2])
    for k in range(nn): L.append(netline(r, 2 + k, tls=tls))
    L += ["start %d" % k for k in range(1, 2 + nn)] + ["listen 1"]
    nraw = 0; live = {}; ports = [9001, 9002, 9003][: r.choice([1, 2, 3])]; used = set()
    act = {}
    def gap(q=0.7):
        k = r.random()
        if k > q: return
        if k < q * 0.4: L.append("steps %d" % r.randrange(1, 60))
        elif k < q * 0.8: L.append("settle")
        else: L.append("run %d" % r.choice([1, 10, 100]))
    for k in range(nn): L.append("connect %d 7001" % (2 + k)); gap()
    for _ in range(r.randrange(4, 16)):
        k = r.random()
        if tls or (nn and r.random() < 0.3):
            if k < 0.5: L.append("%s 1 @%d %d %d %s" % (r.choice(["csend", "csend", "csendd"]), r.randrange(3), r.randrange(1, 5), size(r), r.choice("cccu")))
            elif k < 0.6: L.append("term 1 %d" % r.randrange(3))
            elif k < 0.7: L.append("connect %d 7001" % (2 + r.randrange(nn)))
            elif k < 0.9: L.append("%s 1 %d 1 40" % (r.choice(["csend", "csendd"]), r.choice([1234, 4321])))
            gap(); continue
        p = r.choice(ports)
        if k < 0.3 or not live:
            if p in live:       # the same client comes back from the same address
                L.append("%s %d" % (r.choice(["rawclose", "rawrst", "rawrst"]), live.pop(p))); gap(0.5)
            nraw += 1; L.append("rawconn %d 7001 src=%d" % (nraw, p)); live[p] = nraw; gap()
        elif k < 0.75:
            L.append("%s 1 %d %d %d %s" % (r.choice(["csend", "csend", "csendd"]), r.choice(ports + [p]), r.randrange(1, 6), size(r), r.choice(["c", "c", "c", "u", "h", "g"]))); gap(0.4)
        elif k < 0.85 and p in live:
            L.append("%s %d" % (r.choice(["rawclose", "rawrst"]), live.pop(p))); gap(0.5)
        elif k < 0.9: L.append("term 1 %d" % r.randrange(3)); gap()
        elif k < 0.95: L += ["pause 1"] + (["settle"] if r.random() < 0.3 else []); gap(); L.append("resume 1")
        else: L.append("csend 1 %d 1 30" % r.choice([9009, 1])); gap()
    L += ["join", "run 500", "quiet"]
    for p in ports:
        if r.random() < 0.7: L.append("%s 1 %d 2 40" % (r.choice(["csend", "csendd"]), p))
    L += ["run 500", "quiet"]
    return "\n".join(L)

def p19f(r, i):
    """deferred sends to a client that does not read"""
    L = ["sim seed=%d policy=%d psys=0.1 plock=0 patomic=0 pcb=0.1 pcas=0 pcreep=0 cap=%d seg=65536 recvmax=1048576 maxsteps=8000000" % (r.randrange(1, 1 << 31), r.choice([0, 1]), r.choice([64, 300])),
         netline(r, 1, kind="client", sbuf=r.choice([1, 4096])), "start 1", "listen 1", "rawconn 1 7001 src=9001", "settle", "rawhold 1 1", "settle",
         "csend 1 9001 %d 12" % r.choice([8150, 8250, 8300])]
    for _ in range(3): L.append("csendd 1 9001 %d 12" % r.randrange(1, 20)); L.append(r.choice(["settle", "steps 5"]))
    L += ["settle", "rawhold 1 0", "run 200", "quiet", "csend 1 9001 3 40", "csendd 1 9001 2 40", "run 200", "quiet"]
    return "\n".join(L)

def p19s(r, i):
    """bounded send buffers (blocks of 4 elements), clients which read or do not"""
    L = [simline(r), netline(r, 1, kind="client", sbuf=r.choice([1, 4, 8, 12])), "start 1", "listen 1"]
    ports = [9001, 9002, 9003][: r.choice([1, 2, 3])]; live = {}; nraw = 0; held = set()
    def gap():
        L.extend([[], [], ["steps %d" % r.randrange(1, 60)], ["settle"], ["run 10"]][r.randrange(5)])
    for p in ports: nraw += 1; live[p] = nraw; L.append("rawconn %d 7001 src=%d" % (nraw, p)); gap()
    for _ in range(r.randrange(4, 14)):
        p = r.choice(ports); k = r.random()
        if k < 0.2: L.append("rawhold %d %d" % (live[p], p not in held)); held ^= {p}
        elif k < 0.3:
            L.append("%s %d" % (r.choice(["rawclose", "rawrst", "rawrst"]), live[p])); held.discard(p); gap()
            nraw += 1; L.append("rawconn %d 7001 src=%d" % (nraw, p)); live[p] = nraw
        else: L.append("%s 1 %d %d %d %s" % (r.choice(["csend", "csend", "csendd"]), p, r.choice([2, 9, 25]), r.choice([12, 60, 500]), r.choice(["c", "c", "u", "h", "g"])))
        gap()
    L += ["join", "settle"] + ["rawhold %d 0" % live[p] for p in sorted(held)] + ["run 500", "quiet"]
    for p in ports: L.append("%s 1 %d 2 40" % (r.choice(["csend", "csendd"]), p))
    L += ["run 500", "quiet"]
    return "\n".join(L)
