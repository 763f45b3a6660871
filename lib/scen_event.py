"""Programs over event objects: operations at given times and inside callbacks."""
import scen_lib
def p24(r, k):
    out = [scen_lib.sim(r, False)]
    if r.random() < 0.25: out.append("capi")
    ncb = [0]; known = {}
    def cb(c):
        ncb[0] += 1; known.setdefault(c, []).append(ncb[0]); return ncb[0]
    classes = r.choice([["T"], ["T"], ["F"], ["X"], ["X", "T"], ["F", "T"], ["G"], ["G", "T"], ["C", "T"], ["T", "F", "X", "G", "C"]])
    MS = [0, 1, 5, 20, 30, 30, 50, 100]
    def op(c):
        i, j = r.randrange(4), r.randrange(4)
        q = r.random()
        if q < 0.22: return "%snew %d %d %d %d" % (c, i, cb(c), r.randrange(4), r.random() < 0.2)
        if q < 0.55:
            if c == "T": return "Tadd %d %d" % (i, r.choice(MS))
            if c == "F": return "Fadd %d %d" % (i, r.choice([1, 1, 1, 2, 3]))
            if c == "X": return "Xadd %d %d %d" % (i, r.choice([1, 1, 1, 2, 3]), r.choice(MS[2:]))
            if c == "G": return "Gadd %d %d %d" % (i, r.choice([10, 12]), r.random() < 0.4)
            return "Cadd %d" % i
        if q < 0.62: return "%sdel %d" % (c, i)
        if q < 0.66: return "%sclear %d" % (c, i)
        if q < 0.69: return "%sreset %d" % (c, i)
        if q < 0.86: return "%smv %d %d %d" % (c, i, j, r.randrange(5))
        if q < 0.93: return "%sset %d %d" % (c, i, cb(c))
        return "%sstate %d" % (c, i)
    def any_op(nosig=False):
        c = r.choice(classes)
        if c in "FX" and r.random() < 0.3: return "wr %d" % r.randrange(4)
        if c == "G" and r.random() < 0.35 and not nosig: return "raise %d" % r.choice([10, 12])
        return op(c)
    t = 0; lines = []
    for c in classes:
        for i in range(r.choice([1, 2, 4])):
            lines.append("at 0 %snew %d %d %d %d" % (c, i, cb(c), i if c != "X" else 3 - i, r.random() < 0.1))
            if r.random() < 0.7: lines.append("at 0 " + {"T": "Tadd %d 30" % i, "F": "Fadd %d 1" % i, "X": "Xadd %d 1 40" % i, "G": "Gadd %d 10 0" % i, "C": "Cadd %d" % i}[c])
    for _ in range(r.choice([5, 15, 30])):
        t += r.choice([0, 0, 1, 5, 10, 25, 60])
        o = any_op()
        if o.startswith("Gadd"): lines.append("at %d Gdel %s" % (t, o.split()[1]))
        lines.append("at %d %s" % (t, o))
    for c in known:
        for b in known[c]:
            if r.random() < 0.35:
                o = any_op(True)
                if o.startswith("Gadd") or (c == "C" and o[0] == "C"): continue
                lines.append("on %d %d %s" % (b, r.choice([1, 2, 3]), o))
    out += lines
    return "\n".join(out)
