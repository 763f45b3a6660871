"""Programs of encoding and decoding operations."""
def hx(b):
    return "".join("%02x" % x for x in b) or "-"
def rb(r, n):
    m = r.random()
    if m < 0.2: return [r.choice([0, 0xff, 0x80, 1])] * n
    return [r.choice([0, 0xff, r.randrange(256), r.randrange(256)]) for _ in range(n)]
W = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8}
def stream_op(r):
    s, t = r.randrange(4), r.randrange(4)
    k = r.choice(["put"] * 5 + ["get"] * 5 + ["putd"] * 2 + ["getd"] * 3 + ["size", "peek", "hex", "copy", "move", "swap", "tob", "tobm", "tos", "loadhex", "loadhex", "hash", "new", "clear", "naser", "naget"])
    if k == "put":
        ty = r.choice(sorted(W)); return "put %d %s %s" % (s, ty, hx(rb(r, W[ty])))
    if k == "get": return "get %d %s" % (s, r.choice(sorted(W)))
    if k == "putd": return "put %d %s %s" % (s, r.choice(["data", "arr", "str", "cstr"]), hx(rb(r, r.choice([0, 1, 2, 3, 7, 32, 33]))))
    if k == "getd": return "getd %d %d" % (s, r.choice([0, 1, 2, 3, 5, 8, 16, 40, 1000, -1, -2, -5, -8]))
    if k in ("copy", "move", "swap"): return "%s %d %d" % (k, s, t)
    if k == "new": return "new %d %s" % (s, hx(rb(r, r.choice([0, 1, 2, 5, 11, 32, 40]))))
    if k == "naser": return "naser %d %s" % (s, hx(rb(r, 6)))
    if k == "loadhex":
        n = r.choice([0, 1, 2, 3, 4, 8, 9])
        h = [ord(r.choice("0123456789abcdefABCDEF")) for _ in range(n)]
        if h and r.random() < 0.5: h[r.randrange(len(h))] = r.choice([ord(c) for c in "gG xX+-/:@`\n"] + [200])
        return "loadhex %d %s" % (s, hx(h))
    return "%s %d" % (k, s)
def blob_op(r):
    s, t = r.randrange(4), r.randrange(4)
    k = r.choice(["bset"] * 4 + ["bser", "bser", "bget", "bget", "bbytes", "bhex", "bcmp", "bcmp", "bcmp", "bnull", "bfromhex", "hlput", "hlget", "hlget", "hlbad"])
    if k == "bset":
        n = 32 if r.random() < 0.8 else r.choice([0, 1, 31, 33, 64])
        d = rb(r, n)
        if r.random() < 0.6:        # hardly different from each other
            d = [7] * n
            for _ in range(r.choice([1, 1, 2])):
                if n: d[r.randrange(n)] = r.choice([0, 6, 8, 127, 128, 255])
        return "bset %d %s" % (s, hx(d))
    if k in ("bser", "bget", "bcmp"): return "%s %d %d" % (k, s, t)
    if k == "bfromhex":
        n = r.choice([64, 64, 64, 62, 63, 66, 0]); h = [ord(r.choice("0123456789abcdefABCDEF")) for _ in range(n)]
        if h and r.random() < 0.3: h[r.randrange(n)] = ord(r.choice("gz x"))
        return "bfromhex %d %s" % (s, hx(h))
    if k == "hlput": return "hlput %d 0 %s" % (s, " ".join(str(r.randrange(4)) for _ in range(r.choice([0, 1, 2, 3]))))
    if k == "hlbad": return "new %d %s" % (s, hx(r.choice([[1, 0, 0, 0], [0, 0, 16, 0], [255, 255, 255, 255], [0, 0, 0, 1], [2, 0, 0, 0]]) + rb(r, r.choice([0, 31, 32, 33, 64]))))
    return "%s %d" % (k, s)
def bits_op(r):
    s, t = r.randrange(4), r.randrange(4)
    k = r.choice(["inew"] * 2 + ["isz", "iset", "iset", "iunset", "iflip", "iget", "iget", "iget", "isize", "iclear", "icopy", "iser", "iser", "iunser", "iunser", "ibad", "inull"])
    if k == "inew": return "inew %d %s" % (s, hx(rb(r, r.choice([0, 1, 4, 5, 7, 8, 9, 12, 16, 17]))))
    if k == "isz": return "isz %d %d" % (s, r.choice([0, 1, 8, 31, 32, 33, 63, 64, 65, 127, 128, 200]))
    if k in ("iset", "iunset", "iflip", "iget"): return "%s %d %d" % (k, s, r.choice([0, 1, 7, 8, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128]))
    if k in ("icopy", "iser", "iunser"): return "%s %d %d" % (k, s, t)
    if k == "ibad": return "new %d %s" % (s, hx(r.choice([[64, 0, 0, 0], [65, 0, 0, 0], [0, 0, 16, 0], [255, 255, 255, 255], [0xc1, 255, 255, 255], [0xc0, 255, 255, 255], [0, 0, 0, 128], [3, 0, 0, 0]]) + rb(r, r.choice([0, 4, 8, 16]))))
    return "%s %d" % (k, s)
def seg_op(r):
    s, t = r.randrange(4), r.randrange(4)
    k = r.choice(["gpush"] * 5 + ["gpop"] * 6 + ["grew", "gmpop", "gsize", "gsize", "gcopy", "gmove", "gswap", "gclear"])
    if k in ("gpush", "grew"): return "%s %d %s" % (k, s, hx(rb(r, r.choice([0, 1, 2, 3, 5, 8]))))
    if k == "gpop": return "gpop %d %d" % (s, r.choice([0, 1, 1, 2, 3, 4, 8, 20]))
    if k in ("gcopy", "gmove", "gswap"): return "%s %d %d" % (k, s, t)
    return "%s %d" % (k, s)
def msg_op(r):
    if r.random() < 0.3: return "sha %d %d %s" % (r.choice([1, 256]), r.randrange(8), " ".join(hx(rb(r, r.choice([0, 1, 55, 64, 65, 130]))) for _ in range(r.choice([0, 1, 2, 3]))))
    return "msg %d %s %s" % (r.randrange(256), hx(rb(r, 4)), hx(rb(r, r.choice([0, 1, 2, 12, 13, 64, 300]))))
def p22(r, k):
    out = ["capi"] if r.random() < 0.35 else []
    mix = r.choice([[stream_op], [stream_op, blob_op], [bits_op], [bits_op, stream_op], [seg_op], [blob_op], [msg_op, stream_op], [stream_op, blob_op, bits_op, seg_op]])
    for _ in range(r.choice([10, 30, 60])):
        out.append(r.choice(mix)(r))
    for s in range(4): out += ["size %d" % s, "peek %d" % s, "gsize %d" % s]
    return "\n".join(out)
