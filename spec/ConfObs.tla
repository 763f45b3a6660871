------------------------------ MODULE ConfObs ------------------------------
(***************************************************************************)
(* What the user wrote and what the library makes of it (property P23):    *)
(* "host:port" addresses, options from files and from the command line,    *)
(* formatting, splitting and trimming of text.  Text is a sequence of      *)
(* character codes.  This module is an interpreter of the documented       *)
(* syntax; the library has to give its results, or reject the same inputs. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [files |-> [i \in 0..9 |-> [ex |-> FALSE, d |-> <<>>, lng |-> 0]], opts |-> <<>>, vals |-> <<>>, hasconf |-> FALSE, base |-> <<>>]
Take(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Digit(c) == c \in 48..57
AllDigits(q) == q # <<>> /\ \A i \in 1..Len(q) : Digit(q[i])
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE 10 * Num(Take(q, Len(q) - 1)) + q[Len(q)] - 48
Space == {9, 10, 13, 32}
Trim(q, sp) == LET I == {i \in 1..Len(q) : q[i] \notin sp} IN IF I = {} THEN <<>> ELSE SubSeq(q, Min(I), Max(I))
(* the first place at or after i where d occurs in q, 0 if there is none *)
Find(q, d, i) == LET P == {j \in i..(Len(q) - Len(d) + 1) : SubSeq(q, j, j + Len(d) - 1) = d} IN IF P = {} THEN 0 ELSE Min(P)
RECURSIVE Split(_, _)
Split(q, d) == LET p == Find(q, d, 1) IN IF p = 0 THEN <<q>> ELSE <<Take(q, p - 1)>> \o Split(Drop(q, p + Len(d) - 1), d)
SetOf(q) == {q[i] : i \in 1..Len(q)}
(* ---- numbers ---- *)
RECURSIVE NoZeros(_)
NoZeros(q) == IF Len(q) > 1 /\ q[1] = 48 THEN NoZeros(Tail(q)) ELSE q
MaxPos == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
MaxNeg == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
Neg(q) == q # <<>> /\ q[1] = 45
Mag(q) == NoZeros(IF Neg(q) THEN Tail(q) ELSE q)
IntOk(q) == AllDigits(IF Neg(q) THEN Tail(q) ELSE q) /\ NumLeq(Mag(q), IF Neg(q) THEN MaxNeg ELSE MaxPos)
IntText(q) == IF Mag(q) = <<48>> THEN <<48>> ELSE IF Neg(q) THEN <<45>> \o Mag(q) ELSE Mag(q)
(* decimals with at most 3 digits after the point, in thousandths *)
DecBody(q) == IF Neg(q) THEN Tail(q) ELSE q
DecOk(q) == LET b == DecBody(q) p == Find(b, <<46>>, 1) IN IF p = 0 THEN AllDigits(b) ELSE AllDigits(Take(b, p - 1)) /\ AllDigits(Drop(b, p))
DecVal(q) == LET b == DecBody(q) p == Find(b, <<46>>, 1)
                 ip == IF p = 0 THEN b ELSE Take(b, p - 1)
                 fp == IF p = 0 THEN <<>> ELSE Drop(b, p)
                 v == 1000 * Num(ip) + Num(fp) * (CASE Len(fp) = 0 -> 1 [] Len(fp) = 1 -> 100 [] Len(fp) = 2 -> 10 [] OTHER -> 1)
             IN IF Neg(q) THEN 0 - v ELSE v
(* ---- options ---- *)
Default(ty) == CASE ty = "flag" -> <<0>> [] ty = "str" -> <<100, 101, 102>> [] ty = "int" -> <<55>> [] ty = "dbl" -> <<500>> [] OTHER -> <<>>
CONF == <<99, 111, 110, 102>>
(* the options in order of registration; "conf" (short c) is the first when the configuration has a file *)
ConfOpt == [name |-> CONF, ty |-> "conf", a |-> "set", sh |-> 99]
All(s) == (IF s.hasconf THEN <<ConfOpt>> ELSE <<>>) \o s.opts
Named(o, n) == o.name = n \/ (o.sh # 0 /\ n = <<o.sh>>)
(* a run: vals as far as known, c the error (0: none) *)
RECURSIVE Load(_, _, _), Lines(_, _, _), Apply(_, _, _, _)
Ok(r) == r.c = 0
IsName(q) == Len(q) = 2 /\ q[1] = 64 /\ Digit(q[2])
LongLine == 65535
Load(s, r, name) == IF ~IsName(name) \/ ~s.files[name[2] - 48].ex THEN r
                    ELSE LET f == s.files[name[2] - 48]
                             x == Lines(s, r, Split(f.d, <<10>>))
                         IN IF Ok(x) /\ f.lng + 1 >= LongLine THEN [x EXCEPT !.c = 14] ELSE x
Lines(s, r, ls) == IF ls = <<>> \/ ~Ok(r) THEN r
    ELSE LET q == Head(ls) p == Find(q, <<61>>, 1)
             n == Trim(Take(q, p - 1), Space) v == Trim(Drop(q, p), Space)
             M == {i \in 1..Len(All(s)) : Named(All(s)[i], n)}
         IN  IF p = 0 \/ M = {} THEN Lines(s, r, Tail(ls)) ELSE Lines(s, Apply(s, r, Min(M), v), Tail(ls))
(* option i of All(s) gets the text v *)
Apply(s, r, i, v) ==
    LET o == All(s)[i] j == i - (IF s.hasconf THEN 1 ELSE 0) IN
    CASE o.ty = "conf" -> Load(s, r, v)
      [] o.ty = "flag" -> IF o.a = "on" THEN [r EXCEPT !.vals[j] = <<1>>] ELSE [r EXCEPT !.c = 1]
      [] o.ty = "vec" -> IF o.a = "app" THEN [r EXCEPT !.vals[j] = Append(@, v)] ELSE [r EXCEPT !.c = 1]
      [] o.a # "set" -> [r EXCEPT !.c = 1]
      [] o.ty = "str" -> [r EXCEPT !.vals[j] = v]
      [] o.ty = "int" -> IF IntOk(v) THEN [r EXCEPT !.vals[j] = IntText(v)] ELSE [r EXCEPT !.c = 11]
      [] OTHER -> IF DecOk(v) THEN [r EXCEPT !.vals[j] = <<DecVal(v)>>] ELSE [r EXCEPT !.c = 11]
(* the command line: options may stand anywhere, long names may be shortened, -- ends them *)
Prefix(n, m) == Len(n) <= Len(m) /\ Take(m, Len(n)) = n
LongMatch(s, n) == LET X == {i \in 1..Len(All(s)) : All(s)[i].name = n}
                       P == {i \in 1..Len(All(s)) : Prefix(n, All(s)[i].name)}
                   IN IF X # {} THEN Min(X) ELSE IF Cardinality(P) = 1 THEN Min(P) ELSE 0
ShortMatch(s, c) == LET X == {i \in 1..Len(All(s)) : All(s)[i].sh = c} IN IF X = {} THEN 0 ELSE Min(X)
NeedsArg(s, i) == All(s)[i].a # "on"
RECURSIVE Args(_, _, _), Shorts(_, _, _, _)
Bad(r) == [r EXCEPT !.c = 15]
Args(s, r, as) ==      \* r.non: arguments that are no options
    IF as = <<>> \/ ~Ok(r) THEN r
    ELSE LET a == Head(as) rest == Tail(as) IN
      IF a = <<45, 45>> THEN [r EXCEPT !.non = @ + Len(rest)]
      ELSE IF Len(a) >= 2 /\ a[1] = 45 /\ a[2] = 45 THEN
        LET p == Find(a, <<61>>, 1)
            n == IF p = 0 THEN Drop(a, 2) ELSE SubSeq(a, 3, p - 1)
            i == LongMatch(s, n)
        IN  IF i = 0 THEN Bad(r)
            ELSE IF ~NeedsArg(s, i) THEN (IF p # 0 THEN Bad(r) ELSE Args(s, Apply(s, r, i, <<>>), rest))
            ELSE IF p # 0 THEN Args(s, Apply(s, r, i, Drop(a, p)), rest)
            ELSE IF rest = <<>> THEN Bad(r)
            ELSE Args(s, Apply(s, r, i, Head(rest)), Tail(rest))
      ELSE IF Len(a) >= 2 /\ a[1] = 45 THEN Shorts(s, r, Tail(a), rest)
      ELSE Args(s, [r EXCEPT !.non = @ + 1], rest)
Shorts(s, r, q, rest) ==
    IF ~Ok(r) THEN r
    ELSE IF q = <<>> THEN Args(s, r, rest)
    ELSE LET i == ShortMatch(s, Head(q)) IN
      IF i = 0 THEN Bad(r)
      ELSE IF ~NeedsArg(s, i) THEN Shorts(s, Apply(s, r, i, <<>>), Tail(q), rest)
      ELSE IF Len(q) > 1 THEN Args(s, Apply(s, r, i, Tail(q)), rest)
      ELSE IF rest = <<>> THEN Bad(r)
      ELSE Args(s, Apply(s, r, i, Head(rest)), Tail(rest))
Start(s) == [vals |-> s.vals, c |-> 0, non |-> 0]
Parse(s, as) == Args(s, Load(s, Start(s), s.base), as)
(* ---- addresses ---- *)
Octets(q) == Split(q, <<46>>)
HostOk(q) == LET o == Octets(q) IN Len(o) = 4 /\ \A i \in 1..4 : AllDigits(o[i]) /\ Len(o[i]) <= 3 /\ Num(o[i]) <= 255
HostIp(q) == [i \in 1..4 |-> Num(Octets(q)[i])]
PortOk(q) == AllDigits(q) /\ Len(NoZeros(q)) <= 5 /\ Num(NoZeros(q)) <= 65535
AddrOk(q) == LET p == Find(q, <<58>>, 1) IN p # 0 /\ HostOk(Take(q, p - 1)) /\ PortOk(Drop(q, p))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
AddrText(ip, port) == <<60, 78, 101, 116, 65, 100, 100, 114, 32>> \o Dec(ip[1]) \o <<46>> \o Dec(ip[2]) \o <<46>> \o Dec(ip[3]) \o <<46>> \o Dec(ip[4])
                      \o <<58>> \o Dec(port) \o <<62>>
Chk(c, l) == IF c THEN {} ELSE {l}
Taken(s, n) == \E i \in 1..Len(All(s)) : Named(All(s)[i], n)
Viol(s, e) ==
    IF e.ev \in {"fatal", "crash", "hang"} THEN {"P23.alive"}
    ELSE IF e.ev # "op" THEN {}
    ELSE CASE e.k = "opt" -> Chk(e.c = (IF Taken(s, e.name) THEN 12 ELSE 0), "P23.register")
           [] e.k = "parse" -> LET x == Parse(s, e.args) IN
                Chk(e.leak = 0, "P23.leak") \cup Chk(e.c = x.c, "P23.reject")
                \cup (IF e.c = 0 /\ x.c = 0 THEN Chk(e.vals = x.vals, "P23.values") \cup Chk(e.ind = 1 + Len(e.args) - x.non, "P23.rest") ELSE {})
           [] e.k = "load" -> LET x == Load(s, Start(s), e.args[1]) IN
                Chk(e.leak = 0, "P23.leak") \cup Chk(e.c = x.c, "P23.reject")
                \cup (IF e.c = 0 /\ x.c = 0 THEN Chk(e.vals = x.vals /\ e.found = s.files[e.args[1][2] - 48].ex, "P23.values") ELSE {})
           [] e.k = "addr" -> IF AddrOk(e.a) THEN LET p == Find(e.a, <<58>>, 1) IN
                                   Chk(e.c = 0 /\ e.ip = HostIp(Take(e.a, p - 1)) /\ e.port = Num(NoZeros(Drop(e.a, p))), "P23.addr")
                              ELSE Chk(e.c = 10, "P23.addr")
           [] e.k = "ipport" -> IF HostOk(e.a) THEN Chk(e.c = 0 /\ e.ip = HostIp(e.a) /\ e.port = e.n /\ e.str = AddrText(e.ip, e.port)
                                                      /\ e.nul = (e.ip = <<0, 0, 0, 0>> /\ e.port = 0), "P23.addr") ELSE Chk(e.c = 10, "P23.addr")
           [] e.k = "acmp" -> LET same == e.a = e.b /\ e.ap = e.bp IN Chk(e.eq = same /\ e.ne = ~same /\ (same => e.heq), "P23.addr")
           [] e.k = "fmt" -> Chk(e.len = e.want /\ e.same = e.want, "P23.format")
           [] e.k = "log" -> Chk(e.ok, "P23.format")
           [] e.k = "split" -> Chk(e.out = Split(e.a, e.b), "P23.text")
           [] e.k = "trim" -> Chk(e.out = Trim(e.a, SetOf(e.b)), "P23.text")
                              \cup Chk(LET p == Split(e.a, <<44>>) IN e.all = [i \in 1..Len(p) |-> Trim(p[i], Space)], "P23.text")
           [] e.k = "rnd" -> Chk(e.lo >= e.b /\ 2 * e.hi <= 3 * e.b + 2, "P23.timeout")
           [] e.k = "sec" -> Chk(1000000 * e.s + e.us >= 1000 * e.ms - 1 /\ 1000000 * e.s + e.us <= 1000 * e.ms /\ e.us \in 0..999999, "P23.timeout")
           [] e.k = "err" -> Chk(e.in = (e.c \in 0..30) /\ e.ok /\ (e.c \in 1..30 => e.str # <<>>), "P23.errors")
           [] OTHER -> {}
Upd(s, e) ==
    IF e.ev # "op" THEN s
    ELSE CASE e.k = "file" -> [s EXCEPT !.files[e.n] = [ex |-> TRUE, d |-> e.d, lng |-> e.lng]]
           [] e.k = "cfg" -> [s EXCEPT !.opts = <<>>, !.vals = <<>>, !.hasconf = (e.f # <<45>>), !.base = e.f]
           [] e.k = "opt" -> IF e.c = 0 THEN [s EXCEPT !.opts = Append(@, [name |-> e.name, ty |-> e.ty, a |-> e.a, sh |-> e.sh]), !.vals = Append(@, Default(e.ty))] ELSE s
           [] e.k \in {"parse", "load"} -> [s EXCEPT !.vals = e.vals]
           [] OTHER -> s
=============================================================================
