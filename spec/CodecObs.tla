------------------------------ MODULE CodecObs ------------------------------
(***************************************************************************)
(* Encoding and decoding as their users see them (property P22).  A stream *)
(* is the sequence of bytes put in and not yet taken out; a blob is 32     *)
(* bytes, a bit set a sequence of bits, a segmented buffer a sequence of   *)
(* byte strings.  Each operation of the code is one event with its         *)
(* arguments and results; the results have to be those of this model.      *)
(* Reading what is not there fails and takes nothing.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
I4 == 0..3
Zero32 == [i \in 1..32 |-> 0]
Null == [nul |-> TRUE, d |-> Zero32]
Init0 == [S |-> [i \in I4 |-> <<>>], B |-> [i \in I4 |-> Null],
          T |-> [i \in I4 |-> [n |-> 0, w |-> <<>>]],      \* n bits; w: the bytes they are stored in (a multiple of 8)
          G |-> [i \in I4 |-> <<>>]]
Take(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
Hex1(x) == IF x < 10 THEN 48 + x ELSE 87 + x
HexOf(d) == [i \in 1..2 * Len(d) |-> IF i % 2 = 1 THEN Hex1(d[(i + 1) \div 2] \div 16) ELSE Hex1(d[i \div 2] % 16)]
IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
Dig(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexOk(h) == Len(h) % 2 = 0 /\ \A i \in 1..Len(h) : IsHex(h[i])
UnHex(h) == [i \in 1..Len(h) \div 2 |-> 16 * Dig(h[2 * i - 1]) + Dig(h[2 * i])]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
BitAt(w, p) == (w[p \div 8 + 1] \div Pow2(p % 8)) % 2
WithBit(w, p, v) == [w EXCEPT ![p \div 8 + 1] = @ + (v - BitAt(w, p)) * Pow2(p % 8)]
Words(n) == 8 * ((n + 63) \div 64)
Pad(d, n) == [i \in 1..n |-> IF i <= Len(d) THEN d[i] ELSE 0]
(* little-endian numbers: compared from the last byte *)
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i - 1)
(* removes the first n bytes of a list of segments; a segment that becomes empty goes *)
RECURSIVE SegPop(_, _)
SegPop(q, n) == IF n = 0 \/ q = <<>> THEN q
                ELSE IF Len(Head(q)) <= n THEN SegPop(Tail(q), n - Len(Head(q)))
                ELSE <<Drop(Head(q), n)>> \o Tail(q)
Min(a, b) == IF a < b THEN a ELSE b
(* bits: can a bit set be read from q? *)
BitsN(q) == q[1] + 256 * q[2]
BitsOk(q) == Len(q) >= 4 /\ q[3] = 0 /\ q[4] = 0 /\ Len(q) >= 4 + Words(BitsN(q))
ListOk(q) == Len(q) >= 4 /\ q[3] = 0 /\ q[4] = 0 /\ Len(q) >= 4 + 32 * BitsN(q)
Chk(c, l) == IF c THEN {} ELSE {l}
Viol(s, e) ==
    IF e.ev \in {"fatal", "crash", "hang"} THEN {"P22.alive"}
    ELSE IF e.ev # "op" THEN {}
    ELSE LET q == IF e.s \in I4 THEN s.S[e.s] ELSE <<>>
             b == IF e.s \in I4 THEN s.B[e.s] ELSE Null
             x == IF e.s \in I4 THEN s.T[e.s] ELSE Null
             g == IF e.s \in I4 THEN s.G[e.s] ELSE <<>>
    IN  CASE e.k = "put" -> Chk(e.ok, "P22.put")
          [] e.k = "get" -> IF Len(q) >= e.w THEN Chk(e.ok /\ e.d = Take(q, e.w), "P22.get") ELSE Chk(~e.ok, "P22.short")
          [] e.k = "getd" -> IF e.n >= 0 /\ Len(q) >= e.n THEN Chk(e.ok /\ e.d = Take(q, e.n), "P22.get") ELSE Chk(~e.ok, "P22.short")
          [] e.k = "size" -> Chk(e.n = Len(q), "P22.size")
          [] e.k \in {"peek", "tob", "tobm", "tos"} -> Chk(e.d = q, "P22.content")
          [] e.k = "hex" -> Chk(e.h = HexOf(q), "P22.hex")
          [] e.k = "loadhex" -> Chk(e.ok = HexOk(e.h), "P22.hex")
          [] e.k \in {"hash", "sha"} -> Chk(e.d = e.want, "P22.hash")
          [] e.k = "bset" -> Chk(e.ok = (Len(e.d) = 32), "P22.blob")
          [] e.k = "bget" -> Chk(e.ok = (Len(s.S[e.t]) >= 32), "P22.blob")
          [] e.k = "bbytes" -> Chk(e.d = b.d, "P22.blob")
          [] e.k = "bhex" -> Chk(e.h = HexOf(b.d), "P22.blob")
          [] e.k = "bfromhex" -> Chk(e.ok = (HexOk(e.h) /\ Len(e.h) >= 64), "P22.blob")
          [] e.k = "bcmp" -> LET c == s.B[e.t] IN
                Chk(e.eq = (b.d = c.d) /\ e.ne = (b.d # c.d) /\ e.lt = Less(b.d, c.d, 32) /\ e.gt = Less(c.d, b.d, 32) /\ e.nul = b.nul, "P22.blob")
          [] e.k = "iget" -> Chk(e.v = BitAt(x.w, e.p), "P22.bits")
          [] e.k = "isize" -> Chk(e.n = x.n, "P22.bits")
          [] e.k = "iunser" -> Chk(e.ok = BitsOk(s.S[e.t]), "P22.bits") \cup Chk(e.mx <= 4096 + 64 * Len(s.S[e.t]), "P22.alloc")
          [] e.k = "hlget" -> Chk(e.ok = ListOk(q), "P22.list") \cup Chk(e.mx <= 4096 + 64 * Len(q), "P22.alloc")
                              \cup (IF e.ok /\ ListOk(q) THEN Chk(e.n = BitsN(q) /\ e.d = SubSeq(q, 5, 4 + 32 * BitsN(q)), "P22.list") ELSE {})
          [] e.k = "msg" -> Chk(e.out = e.magic \o <<e.s>> \o LE4(Len(e.d)) \o e.sum \o e.d, "P22.frame")
                            \cup Chk(e.pop = e.s /\ e.plen = Len(e.d) /\ e.pmagic = e.magic /\ e.got = e.d /\ e.v1 /\ ~e.v2 /\ ~e.early /\ ~e.again /\ e.cpy, "P22.frame")
          [] e.k = "gpop" -> Chk(e.d = Take(Cat(g), Min(e.n, Len(Cat(g)))), "P22.segments")
          [] e.k = "gmpop" -> Chk(e.d = Head(g), "P22.segments")
          [] e.k = "gsize" -> Chk(e.n = Len(Cat(g)), "P22.segments")
                              \cup (IF \A i \in 1..Len(g) : g[i] # <<>> THEN Chk(e.empty = (g = <<>>) /\ e.len = Len(g), "P22.segments") ELSE {})
          [] e.k = "gmove" -> Chk(e.left = 0, "P22.segments")
          [] e.k = "naget" -> IF Len(q) >= 6 THEN Chk(e.ok /\ e.d = Take(q, 6), "P22.addr") ELSE Chk(~e.ok, "P22.addr")
          [] OTHER -> {}
Upd(s, e) ==
    IF e.ev # "op" THEN s
    ELSE CASE e.k = "new" -> [s EXCEPT !.S[e.s] = e.d]
           [] e.k \in {"put", "naser"} -> [s EXCEPT !.S[e.s] = @ \o e.d]
           [] e.k = "get" -> IF e.ok THEN [s EXCEPT !.S[e.s] = Drop(@, e.w)] ELSE s
           [] e.k = "getd" -> IF e.ok THEN [s EXCEPT !.S[e.s] = Drop(@, e.n)] ELSE s
           [] e.k \in {"clear", "tobm"} -> [s EXCEPT !.S[e.s] = <<>>]
           [] e.k = "copy" -> [s EXCEPT !.S[e.t] = s.S[e.s]]
           [] e.k = "move" -> IF e.s = e.t THEN s ELSE [s EXCEPT !.S[e.t] = s.S[e.s], !.S[e.s] = <<>>]
           [] e.k = "swap" -> [s EXCEPT !.S = [@ EXCEPT ![e.t] = s.S[e.s], ![e.s] = s.S[e.t]]]
           [] e.k = "loadhex" -> [s EXCEPT !.S[e.s] = IF e.ok THEN UnHex(e.h) ELSE <<>>]
           [] e.k = "bnull" -> [s EXCEPT !.B[e.s] = Null]
           [] e.k = "bset" -> IF e.ok THEN [s EXCEPT !.B[e.s] = [nul |-> FALSE, d |-> e.d]] ELSE s
           [] e.k = "bser" -> [s EXCEPT !.S[e.t] = @ \o s.B[e.s].d]
           [] e.k = "bget" -> IF e.ok THEN [s EXCEPT !.B[e.s] = [nul |-> FALSE, d |-> Take(s.S[e.t], 32)], !.S[e.t] = Drop(@, 32)]
                              ELSE [s EXCEPT !.B[e.s] = Null, !.S[e.t] = <<>>]
           [] e.k = "bfromhex" -> [s EXCEPT !.B[e.s] = IF e.ok THEN [nul |-> FALSE, d |-> Take(UnHex(e.h), 32)] ELSE Null]
           [] e.k = "inew" -> [s EXCEPT !.T[e.s] = [n |-> 8 * Len(e.d), w |-> Pad(e.d, Words(8 * Len(e.d)))]]
           [] e.k = "isz" -> [s EXCEPT !.T[e.s] = [n |-> e.n, w |-> Pad(<<>>, Words(e.n))]]
           [] e.k = "inull" -> [s EXCEPT !.T[e.s] = [n |-> 0, w |-> <<>>]]
           [] e.k = "iset" -> [s EXCEPT !.T[e.s].w = WithBit(@, e.p, 1)]
           [] e.k = "iunset" -> [s EXCEPT !.T[e.s].w = WithBit(@, e.p, 0)]
           [] e.k = "iflip" -> [s EXCEPT !.T[e.s].w = WithBit(@, e.p, 1 - BitAt(@, e.p))]
           [] e.k = "iclear" -> [s EXCEPT !.T[e.s].w = Pad(<<>>, Len(@))]
           [] e.k = "icopy" -> [s EXCEPT !.T[e.t] = s.T[e.s]]
           [] e.k = "iser" -> [s EXCEPT !.S[e.t] = @ \o LE4(s.T[e.s].n) \o s.T[e.s].w]
           [] e.k = "iunser" -> IF e.ok THEN LET q == s.S[e.t] n == BitsN(q) IN [s EXCEPT !.T[e.s] = [n |-> n, w |-> SubSeq(q, 5, 4 + Words(n))], !.S[e.t] = Drop(@, 4 + Words(n))]
                                ELSE [s EXCEPT !.T[e.s] = [n |-> 0, w |-> <<>>], !.S[e.t] = <<>>]
           [] e.k = "hlput" -> [s EXCEPT !.S[e.s] = @ \o LE4(Len(e.bs)) \o Cat([i \in 1..Len(e.bs) |-> s.B[e.bs[i]].d])]
           [] e.k = "hlget" -> [s EXCEPT !.S[e.s] = IF e.ok THEN Drop(@, 4 + 32 * e.n) ELSE <<>>]
           [] e.k = "naget" -> [s EXCEPT !.S[e.s] = IF e.ok THEN Drop(@, 6) ELSE <<>>]
           [] e.k = "gpush" -> [s EXCEPT !.G[e.s] = Append(@, e.d)]
           [] e.k = "grew" -> [s EXCEPT !.G[e.s] = <<e.d>> \o @]
           [] e.k = "gpop" -> [s EXCEPT !.G[e.s] = SegPop(@, e.n)]
           [] e.k = "gmpop" -> [s EXCEPT !.G[e.s] = Tail(@)]
           [] e.k = "gcopy" -> [s EXCEPT !.G[e.t] = s.G[e.s]]
           [] e.k = "gmove" -> IF e.s = e.t THEN s ELSE [s EXCEPT !.G[e.t] = s.G[e.s], !.G[e.s] = <<>>]
           [] e.k = "gswap" -> [s EXCEPT !.G = [@ EXCEPT ![e.t] = s.G[e.s], ![e.s] = s.G[e.t]]]
           [] e.k = "gclear" -> [s EXCEPT !.G[e.s] = <<>>]
           [] OTHER -> s
=============================================================================
