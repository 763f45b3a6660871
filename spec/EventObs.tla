------------------------------ MODULE EventObs ------------------------------
(***************************************************************************)
(* Event objects as their users see them (property P24): timers (T),       *)
(* descriptor events (F), descriptor events with a timeout (X), signal     *)
(* events (G) and check events (C) on one loop.  An object is live or not, *)
(* has a callback (known by its number) and may be armed; moving an object *)
(* takes all of that along.  Time is in milliseconds.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
I4 == 0..3
Cls == {"T", "F", "X", "G", "C"}
Dead == [live |-> FALSE, cb |-> 0, armed |-> FALSE, due |-> 0, tmo |-> 0, p |-> -1, w |-> FALSE, m |-> 0, sig |-> 0, once |-> FALSE, pend |-> 0, at |-> 0, n |-> 0]
Init0 == [o |-> [c \in Cls |-> [i \in I4 |-> Dead]], d |-> [p \in I4 |-> 0]]
Slack == 3
Early == 1
Has(x, b) == (x \div b) % 2 = 1
Chk(c, l) == IF c THEN {} ELSE {l}
(* objects whose time has passed without their callback *)
Late(s, t) == \E i \in I4 : \/ s.o["T"][i].armed /\ s.o["T"][i].due + Slack < t
                            \/ s.o["X"][i].armed /\ s.o["X"][i].due + Slack < t
Unseen(s) == \E i \in I4 : \/ \E c \in {"F", "X"} : LET x == s.o[c][i] IN x.armed /\ (IF x.w THEN Has(x.m, 2) ELSE Has(x.m, 1) /\ s.d[x.p] > 0)
                           \/ s.o["G"][i].armed /\ s.o["G"][i].pend > 0
Owner(s, c, cb) == {i \in I4 : s.o[c][i].live /\ s.o[c][i].armed /\ s.o[c][i].cb = cb}
Viol(s, e) ==
    CASE e.ev \in {"fatal", "crash", "hang"} -> {"P24.alive"}
      [] e.ev = "quiet" -> Chk(~Late(s, e.t), "P24.missed") \cup Chk(~Unseen(s), "P24.unseen")
      [] e.ev = "end" -> Chk(e.left = 0, "P24.leak")
      [] e.ev = "op" -> Chk(~Late(s, e.t), "P24.missed")
                        \cup Chk(e.top => \A i \in I4 : LET x == s.o["C"][i] IN x.armed /\ x.at < e.t => x.n > 0, "P24.check")
                        \cup (IF e.k = "state" THEN Chk(e.v = s.o[e.c][e.i].live, "P24.state") ELSE {})
      [] e.ev = "fire" -> Chk(~Late(s, e.t), "P24.missed") \cup
            (IF Owner(s, e.c, e.cb) = {} THEN {"P24.unarmed"}
             ELSE LET i == CHOOSE i \in Owner(s, e.c, e.cb) : TRUE
                      x == s.o[e.c][i]
                  IN CASE e.c = "T" -> Chk(e.t >= x.due - Early, "P24.early") \cup Chk(e.who = i, "P24.self")
                       [] e.c = "G" -> Chk(x.pend > 0 /\ e.sig = x.sig, "P24.signal")
                       [] e.c = "C" -> {}
                       [] e.c \in {"F", "X"} ->
                            IF e.e = 8 THEN Chk(e.c = "X" /\ e.t >= x.due - Early /\ e.p = x.p, "P24.early")
                            ELSE Chk(e.p = x.p /\ (IF x.w THEN e.e = 2 /\ Has(x.m, 2) ELSE e.e = 1 /\ Has(x.m, 1) /\ s.d[x.p] > 0 /\ e.n = s.d[x.p]), "P24.ready"))
      [] OTHER -> {}
Arm(x, e) == CASE e.c = "T" -> [x EXCEPT !.armed = TRUE, !.due = e.t + e.ms]
               [] e.c = "F" -> [x EXCEPT !.armed = TRUE, !.m = e.m]
               [] e.c = "X" -> [x EXCEPT !.armed = TRUE, !.m = e.m, !.tmo = e.ms, !.due = e.t + e.ms]
               [] e.c = "G" -> [x EXCEPT !.armed = TRUE, !.pend = IF e.sig = x.sig THEN @ ELSE 0, !.sig = e.sig, !.once = e.once]
               [] OTHER -> IF x.armed THEN x ELSE [x EXCEPT !.armed = TRUE, !.at = e.t, !.n = 0]
Op(s, e) ==
    CASE e.k = "new" -> [s EXCEPT !.o[e.c][e.i] = [Dead EXCEPT !.live = TRUE, !.cb = e.cb, !.p = e.p, !.w = e.w]]
      [] e.k \in {"reset", "clear"} -> [s EXCEPT !.o[e.c][e.i] = Dead]
      [] e.k = "del" -> [s EXCEPT !.o[e.c][e.i] = [@ EXCEPT !.armed = FALSE, !.pend = 0]]
      [] e.k = "mv" -> IF e.how \in {2, 3} THEN [s EXCEPT !.o[e.c] = [@ EXCEPT ![e.j] = s.o[e.c][e.i], ![e.i] = s.o[e.c][e.j]]]
                       ELSE IF e.i = e.j THEN s
                       ELSE [s EXCEPT !.o[e.c] = [@ EXCEPT ![e.j] = s.o[e.c][e.i], ![e.i] = Dead]]
      [] e.k = "set" -> [s EXCEPT !.o[e.c][e.i].cb = e.cb]
      [] e.k = "add" -> [s EXCEPT !.o[e.c][e.i] = Arm(@, e)]
      [] OTHER -> s
Upd(s, e) ==
    CASE e.ev = "op" -> IF e.c = "w" THEN [s EXCEPT !.d[e.p] = @ + 1]
                        ELSE IF e.c = "r" THEN [s EXCEPT !.o["G"] = [i \in I4 |-> IF @[i].armed /\ @[i].sig = e.sig THEN [@[i] EXCEPT !.pend = @ + 1] ELSE @[i]]]
                        ELSE Op(s, e)
      [] e.ev = "fire" ->
            LET i == CHOOSE i \in Owner(s, e.c, e.cb) : TRUE x == s.o[e.c][i] IN
            CASE e.c = "T" -> [s EXCEPT !.o["T"][i].armed = FALSE]
              [] e.c = "G" -> [s EXCEPT !.o["G"][i] = [@ EXCEPT !.armed = ~x.once, !.pend = IF x.once THEN 0 ELSE @ - 1]]
              [] e.c = "C" -> [s EXCEPT !.o["C"][i].n = 1]
              [] e.e = 8 -> [s EXCEPT !.o["X"][i].armed = FALSE]
              [] OTHER -> [s EXCEPT !.o[e.c][i].due = e.t + x.tmo, !.d = IF x.w THEN @ ELSE [@ EXCEPT ![x.p] = 0]]
      [] OTHER -> s
=============================================================================
