"""Texts a user may write: addresses, command lines, configuration files."""
def hx(s):
    return "".join("%02x" % (ord(c) if isinstance(c, str) else c) for c in s) or "-"
NAMES = ["a", "alpha", "alp", "beta", "be", "gamma", "g", "delta", "port", "ports", "opt-x"]
def num(r):
    m = r.random()
    if m < 0.5: return str(r.choice([0, 1, 9, 10, 42, 65535, 65536, 99999, 2147483647]))
    if m < 0.6: return "-" + str(r.choice([0, 1, 77, 2147483648]))
    if m < 0.7: return r.choice(["2147483648", "-2147483649", "99999999999", "-99999999999999999999999", "9223372036854775808"])
    if m < 0.78: return r.choice(["007", "-08", "00000000000012"])
    if m < 0.9: return r.choice(["12x", "3.5", "4 5", "7,", "5-", "0x10", "1-2"])
    return r.choice(["", "x", "abc", "-", "--", "=3"])
def dec(r):
    m = r.random()
    if m < 0.6: return r.choice(["", "-"]) + str(r.choice([0, 1, 12, 999])) + r.choice(["", ".5", ".25", ".125", ".0", ".007"])
    if m < 0.7: return "1e999"
    if m < 0.85: return r.choice(["1.5x", "2..5", "3.1.4", "0.5 1", "7,5"])
    return r.choice(["", "abc", "-", "."])
def word(r):
    return "".join(r.choice("abcz019_/.:-=#, @") for _ in range(r.choice([0, 1, 2, 3, 6]))).replace("@", "&")
class Gen:
    def __init__(g, r):
        g.r = r; g.opts = []; g.conf = False
    def value(g, o):
        r = g.r
        if o[1] == "int": return num(r) if r.random() < 0.7 else str(r.randrange(1000))
        if o[1] == "dbl": return dec(r)
        if o[1] == "conf": return "@%d" % r.choice([1, 2, 3, 9])
        return word(r)
    def good(g, o):
        r = g.r
        if o[1] == "int": return str(r.randrange(-50, 1000))
        if o[1] == "dbl": return str(r.randrange(100)) + r.choice(["", ".5", ".125"])
        return g.value(o)
    def pick(g): return g.r.choice(g.opts) if g.opts else ("zz", "str", "set", "-")
    def line(g, i, bad):
        r = g.r; m = r.random()
        if m < 0.1: return r.choice(["", "# comment", "nothing here", "   ", "[section]"])
        if m < 0.2: return "unknown%d = %d" % (r.randrange(3), r.randrange(9))
        if m < 0.25 and g.conf and i < 3: return "conf = @%d" % r.randrange(i + 1, 4)
        o = g.pick()
        if o[1] == "conf": return "conf = @%d" % r.randrange(i + 1, 5)
        n = o[3] if o[3] != "-" and r.random() < 0.2 else o[0]
        sp = lambda: r.choice(["", " ", "\t", "  ", " \t "])
        return sp() + n + sp() + "=" + sp() + (g.value(o) if r.random() < bad else g.good(o)) + sp() + r.choice(["", "", "\r"])
    def args(g, bad):
        r = g.r; out = []
        for _ in range(r.choice([0, 1, 2, 4, 7])):
            m = r.random(); o = g.pick(); v = g.value(o) if r.random() < bad else g.good(o)
            flag = o[2] == "on"
            n = o[0] if r.random() < 0.8 else o[0][:max(1, r.randrange(len(o[0]) + 1))]
            if m < 0.12: out.append(r.choice(["file", "x=1", "-", "pos"]))
            elif m < 0.15: out.append("--")
            elif m < 0.15 + 0.05 * bad * 4: out.append(r.choice(["--nope", "-Z", "--nope=1", "-Zq", "--", "---"]))
            elif m < 0.5 or o[3] == "-": out += ["--" + n] if flag else (["--" + n, v] if r.random() < 0.5 else ["--" + n + "=" + v])
            elif flag: out.append("-" + o[3] + ("" if r.random() < 0.5 else "".join(p[3] for p in r.sample(g.opts, min(2, len(g.opts))) if p[3] != "-" and p[2] == "on")))
            else: out += ["-" + o[3], v] if r.random() < 0.5 or not v else ["-" + o[3] + v]
        if r.random() < 0.1 * bad * 3 and g.opts: out.append("--" + g.pick()[0])
        return out
def p23(r, k):
    out = ["capi"] if r.random() < 0.3 else []
    m = r.random()
    if m < 0.55:
        for _ in range(r.choice([1, 2, 3])):
            g = Gen(r); g.conf = r.random() < 0.75; bad = r.choice([0, 0, 0.1, 0.4])
            shorts = list("abdefghpqx"); r.shuffle(shorts)
            if g.conf: g.opts.append(("conf", "conf", "set", "c"))
            names = r.sample(NAMES, r.choice([1, 2, 3, 5, 8])); reg = []; taken = {"conf", "c"} if g.conf else set()
            for n in names:
                ty = r.choice(["flag", "str", "int", "int", "dbl", "vec"])
                ac = {"flag": "on", "vec": "app"}.get(ty, "set")
                if r.random() < 0.03: ac = r.choice(["on", "set", "app"])
                sh = next((c for c in shorts if c not in taken), "-") if r.random() < 0.6 else "-"
                if sh != "-": shorts.remove(sh)
                reg.append("opt %s %s %s %s" % (n, ty, ac, sh))
                if n not in taken:
                    taken |= {n} | ({sh} if sh != "-" else set()); g.opts.append((n, ty, ac, sh))
                if r.random() < 0.1: reg.append("opt %s str set -" % r.choice([n, sh] if sh != "-" else [n]))
            for i in range(4):
                if r.random() < 0.7:
                    text = "\n".join(g.line(i, bad) for _ in range(r.choice([0, 1, 3, 6])))
                    if r.random() < 0.7: text += "\n"
                    lng = r.choice([65533, 65534, 65535, 70000]) if r.random() < 0.04 and text.endswith("\n") else 0
                    out.append("file %d %s %d" % (i, hx(text), lng))
            out.append("cfg " + ("-" if not g.conf else r.choice(["@0", "@0", "@0", "none", "@8"])))
            out += reg
            out.append("parse " + " ".join(hx(a) for a in g.args(bad)))
            if r.random() < 0.3: out.append("load @%d" % r.randrange(5))
            if r.random() < 0.3: out.append("parse " + " ".join(hx(a) for a in g.args(bad)))
    elif m < 0.8:
        for _ in range(30):
            oc = lambda: str(r.choice([0, 1, 9, 10, 99, 100, 127, 192, 254, 255, 255, 256 if r.random() < 0.1 else 3, 999 if r.random() < 0.05 else 7]))
            h = ".".join(oc() for _ in range(4))
            if r.random() < 0.05: h = ".".join(oc() for _ in range(5))
            p = str(r.choice([0, 1, 80, 1024, 9999, 32767, 32768, 65535, 65536, 65537, 99999, 131072])) if r.random() < 0.7 else r.choice(["", "x", "-1", "80x", "8 0", "80:", "80:90", "80.", "99999999999999999999", "4294967376", "080", "00000443", "-80"])
            q = r.random()
            if q < 0.6: out.append("addr " + hx(h + ":" + p))
            elif q < 0.65: out.append("addr " + hx(r.choice([h, h + "1", "", ":", h + ";" + "80"])))
            elif q < 0.85: out.append("ipport %s %d" % (hx(h), r.choice([0, 1, 80, 255, 256, 32768, 65535])))
            else:
                a, ap = r.choice([0, 1, 2130706433, 16777343]), r.choice([0, 1, 80, 65535]); b, bp = (a, ap) if r.random() < 0.5 else (r.choice([0, 1, 16777343]), r.choice([0, 1, 80]))
                out.append("acmp %d %d %d %d" % (a, ap, b, bp))
    else:
        for _ in range(20):
            q = r.random()
            if q < 0.25: out.append("fmt %d %d" % (r.choice([0, 1, 100, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2048, 5000]), r.choice([0, 1, 9, 10, 123, 12345])))
            elif q < 0.35: out.append("log %d %d" % (r.choice([0, 1, 50, 1022, 1023, 1024, 1025, 3000]), r.randrange(4)))
            elif q < 0.6: out.append("split %s %s" % (hx("".join(r.choice("ab,,::") for _ in range(r.randrange(9)))), hx(r.choice([",", ":", "::", "ab", "aa", ",,"]))))
            elif q < 0.8: out.append("trim %s %s" % (hx("".join(r.choice("ab, \t\n\r") for _ in range(r.randrange(10)))), hx(r.choice(["", "", "a", "ab "]))))
            elif q < 0.86: out.append("rnd %d" % r.choice([0, 1, 100, 1000, 30000]))
            elif q < 0.93: out.append("sec %d" % r.choice([0, 1, 125, 500, 999, 1000, 1001, 1500, 60000, 123456]))
            else: out.append("err %d %d" % (r.choice(list(range(31)) + [-1, 31, 1000]), r.choice([0, 0, 2, 11, 111])))
    return "\n".join(out)
