"""Scenarios for the parts of the library that are used on their own: queues, cross-thread calls, smart pointers."""
import core

def sim(r, atomic=True):
    pol = r.choice([0, 0, 1])
    pa = r.choice([0.03, 0.1, 0.25, 0.5, 0.9]) if atomic else r.choice([0.005, 0.02, 0.1])
    return "sim seed=%d policy=%d psys=%.2f plock=%.2f patomic=%.3f pcb=%.2f pcas=%.2f maxsteps=400000" % (
        r.randrange(1, 1 << 40), pol, r.choice([0.1, 0.3, 0.8]), r.choice([0.05, 0.3, 0.8]), pa, r.choice([0.1, 0.5, 0.9]), r.choice([0, 0, 0.05, 0.3]))

# ---------------------------------------------------------------- queues
def queue_results(tr):
    """Gives every call of a queue operation the result it returned (its effect happens in between)."""
    out, pend = [], {}
    for e in tr:
        e = dict(e)
        if e["ev"] == "call":
            pend[e["t"]] = e; e["ok"] = True
        elif e["ev"] == "ret":
            c = pend.pop(e["t"])
            c["ok"] = e["ok"]
            if c["op"] == "d": c["v"] = e["v"]
        out.append(e)
    return out

def p15(S):
    """Histories on queues whose blocks hold S elements."""
    def mk(r, k):
        out = [sim(r)]
        kind = r.choice(["mpmc", "mpmc", "mpsc"])
        bounded = r.random() < 0.3
        B = r.choice([1, 1, 2, 3]) if S < 100 else 1
        out.append("q %s cap=%d slots=%d blk=%d slow=%d" % (kind, B * S if bounded else 0, (B + 1) * S if bounded else 0, S if bounded else 0, k % 3 == 1))
        if S > 100: out.append("pre %d" % (r.choice([1, 1, 2, 3]) * S - r.choice([0, 1, 1, 2, 3, 5])))
        elif r.random() < 0.5: out.append("pre %d" % r.randrange(1, 4 * S))
        if r.random() < 0.4 and not (bounded and S < 100 and False): out.append("fill %d" % (r.randrange(0, min(S, 6) + 1)))
        e = "b" if bounded else "e"
        nth = r.choice([2, 2, 3, 3, 4])
        L = r.choice([2, 3, 4, 6, 8])
        if kind == "mpmc":
            for t in range(1, nth + 1):
                b = r.random()
                out.append("t %d %s" % (t, "".join((e if r.random() < b else "d") for _ in range(r.randrange(1, L + 1)))))
        else:
            for t in range(2, nth + 1):
                out.append("t %d %s" % (t, e * r.randrange(1, L + 1)))
            ops = ""
            for _ in range(r.randrange(1, 2 * L)):
                ops += r.choice(["d", "d", "dr", "dd" + ("r" if bounded else "rr")])
            out.append("t 1 %s" % ops)
        out += ["go", "drain", "freeq"]
        return "\n".join(out)
    mk.__name__ = "p15_%d" % S
    return mk

def p15b(S):
    """Blocks are emptied, given back and taken again while a dequeue is under way."""
    def mk(r, k):
        out = [sim(r).replace("patomic=", "patomic=%.3f was=" % r.choice([0.01, 0.03, 0.03, 0.06, 0.1])), "q mpmc cap=0 slots=0 blk=0"]
        if r.random() < 0.3: out.append("pre %d" % r.randrange(1, 3 * S + 1))
        out.append("fill %d" % r.randrange(S, 2 * S + 1))
        out.append("t 1 %s" % ("d" * r.randrange(1, 3)))
        out.append("t 2 %s" % (("e" * S + "d" * S) * r.randrange(2, 4)))
        out.append("t 3 %s" % "".join(r.choice("ed") for _ in range(r.randrange(1, 4))))
        out += ["go", "drain", "freeq"]
        return "\n".join(out)
    mk.__name__ = "p15b_%d" % S
    return mk

def p15f(S):
    """An enqueue is under way while its block is used up, given back and taken again by two others at once."""
    def mk(r, k):
        out = [sim(r).replace("patomic=", "patomic=%.3f was=" % r.choice([0.02, 0.04, 0.08, 0.15])), "q mpmc cap=0 slots=0 blk=0 slow=0"]
        if r.random() < 0.7: out.append("pre %d" % r.randrange(1, 3 * S + 1))
        if r.random() < 0.5: out.append("fill %d" % r.randrange(0, S + 1))
        out.append("t 1 e")
        out.append("t 2 %s" % "".join("e" * r.randrange(1, S + 1) + "d" * r.randrange(1, S + 1) for _ in range(r.randrange(2, 4))))
        out.append("t 3 %s" % "".join(r.choice("eed") for _ in range(r.randrange(1, 5))))
        out += ["go", "drain", "freeq"]
        return "\n".join(out)
    mk.__name__ = "p15f_%d" % S
    return mk
def p15n(S):
    """Every thread enqueues before it dequeues: no dequeue may find the queue empty."""
    def mk(r, k):
        out = [sim(r), "q mpmc cap=0 slots=0 blk=0 slow=%d" % (k % 4 == 1)]
        if r.random() < 0.5: out.append("pre %d" % r.randrange(1, 3 * S + 1))
        if r.random() < 0.3: out.append("fill %d" % r.randrange(1, S + 1))
        for t in range(1, r.choice([2, 3, 3, 4]) + 1):
            out.append("t %d %s" % (t, "".join(r.choice(["ed", "ed", "eedd"]) for _ in range(r.randrange(1, 4)))))
        out += ["go", "drain", "freeq"]
        return "\n".join(out)
    mk.__name__ = "p15n_%d" % S
    return mk

# ---------------------------------------------------------------- event driven queues
def p16(r, k):
    kind = r.choice(["mpsc", "mpsc", "mpmc"])
    loops = 1 if kind == "mpsc" else r.choice([1, 2, 3])
    out = [sim(r), "evq %s loops=%d burst=%d slow=%d" % (kind, loops, r.choice([0, 1, 1, 2, 3, 5]), k % 3 == 1)]
    early = r.random() < 0.2
    if not early: out.append("loops")
    if r.random() < 0.5: out.append("settle")
    for rnd in range(r.choice([1, 2, 3])):
        for p in range(1, r.choice([1, 2, 3, 4]) + 1):
            out.append("prod %d %d %s" % (p + 10 * rnd, r.choice([1, 1, 2, 3, 6]), r.choice(["", "", "1", "3"])))
        if early: out.append("loops"); early = False
        if r.random() < 0.5: out.append("run %d" % r.choice([0, 1, 2, 5]))
        if r.random() < 0.7: out += ["join", "quiet"]
    out += ["join", "quiet", "stop"]
    return "\n".join(out)

# ---------------------------------------------------------------- cross-thread calls
def p17(r, k):
    out = [sim(r, r.random() < 0.5)]
    stops = r.random() < 0.35
    if not stops and r.random() < 0.3: out.append("capi")
    nl = r.choice([1, 1, 2, 3])
    ntc = nl + r.choice([0, 0, 1])
    for l in range(1, nl + 1): out.append("ec %d" % l)
    on = {}
    for t in range(1, ntc + 1):
        on[t] = (t - 1) % nl + 1
        out.append("tc %d %d %s" % (t, on[t], r.choice(["", "burst=1", "burst=1", "burst=2", "burst=3"])))
    late = r.random() < 0.2
    if not late: out += ["loop %d" % l for l in range(1, nl + 1)]
    if r.random() < 0.5: out.append("settle")
    for rnd in range(r.choice([1, 2, 3])):
        if stops and r.random() < 0.2 and late: out.append("stoptc %d" % r.randrange(1, ntc + 1))
        for th in range(1, r.choice([1, 2, 3, 4]) + 1):
            ops = []
            for _ in range(r.choice([1, 2, 3, 6])):
                kd = r.choice("aaaaAncSvC" + ("s" if stops else "") + "w")
                t = r.randrange(1, ntc + 1)
                if kd == "w": ops.append("w:%d" % r.choice([1, 2]))
                elif kd == "n": ops.append("n:%d:%d" % (t, r.randrange(1, ntc + 1)))
                else: ops.append("%s:%d" % (kd, t))
            out.append("t %d %s" % (th + 10 * rnd, " ".join(ops)))
        out.append("go")
        if late:
            out.append("settle")
            out += ["loop %d" % l for l in range(1, nl + 1)]; late = False
        out.append("run %d" % r.choice([0, 1, 10]))
        out += ["run 20", "join", "quiet"]
    for l in range(1, nl + 1):
        out.append("endloop %d" % l)
    if r.random() < 0.6 and "capi" not in out:
        out.append("t 99 %s" % " ".join("a:%d" % r.randrange(1, ntc + 1) for _ in range(r.choice([1, 2, 4]))))
        out += ["go", "join"]
    for t in range(1, ntc + 1): out.append("freetc %d" % t)
    return "\n".join(out)

# ---------------------------------------------------------------- smart pointers
def _refops(r, n, upg):
    ops = []
    for _ in range(n):
        k = r.choice("cmxxCMswWVy" + "u" * upg + "rg" + "nb"[: r.choice([0, 0, 1, 2])])
        i, j = r.randrange(4), r.randrange(4)
        ops.append("%s%d%d" % (k, i, j))
    return " ".join(ops)

def p18(r, k):
    """Threads share a few objects; the last handles go at the same time."""
    out = [sim(r), "kind arc"]
    nth = r.choice([2, 2, 3, 4])
    out.append("do 1 " + " ".join(["n00", "b01"][: r.choice([1, 1, 2])] + ["w00", "w11"]))
    for t in range(2, nth + 1):
        for j in range(r.choice([1, 1, 2])):
            if r.random() < 0.55: out.append("give 1 s%d %d %d" % (r.randrange(2), t, r.randrange(4)))
            else: out.append("give 1 w%d %d %d" % (r.randrange(2), t, r.randrange(4)))
    if r.random() < 0.4: out.append("do 1 " + r.choice(["x00", "y00", "y00 y10", "x00 y00"]))
    short = r.random() < 0.6
    for t in range(1, nth + 1):
        if short:
            ops = r.choice(["x00", "x00 x10", "y00", "y00 y10", "u00 r00", "u01 x00", "u01 r10 x10 y00", "u10 x00", "w02 x00", "x00 u01 r10", "c02 x00 x20", "y00 x00", "x00 y00", "x00 x10 x20 x30", "y00 y10 y20 y30", "u00 u11 u22 u33", "W02 y00 y20", "V02 y20"])
            if r.random() < 0.3: ops += " " + _refops(r, 2, 2)
        else: ops = _refops(r, r.choice([2, 4, 8]), 3)
        out.append("t %d %s" % (t, ops))
    out += ["go", "end"]
    return "\n".join(out)

def p18s(r, k):
    """One thread, long histories: every operation in every state."""
    out = [sim(r), "kind " + r.choice(["rc", "rc", "arc"])]
    out.append("do 1 " + _refops(r, r.choice([20, 60, 120]), 3))
    out.append("end")
    return "\n".join(out)
