------------------------------- MODULE RefObs -------------------------------
(***************************************************************************)
(* Shared ownership as its users see it (property P18).  Threads hold      *)
(* strong and weak handles in slots; an operation is bracketed by op and   *)
(* opd events and may overlap with those of other threads.  An object is   *)
(* destroyed (dead) exactly once, when its last strong handle goes and not *)
(* before; a weak handle can be turned into a strong one exactly while the *)
(* object is owned by somebody; nothing is leaked.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [st |-> <<>>, wk |-> <<>>,    \* <<thread, slot>> -> object
          run |-> <<>>,                \* thread -> operation under way
          lost |-> {},                 \* upgrades (threads) during which the object has been without a stable owner
          dead |-> {}, born |-> {}]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Set(f, k, v) == IF v = 0 THEN Del(f, k) ELSE Put(f, k, v)
Chk(c, l) == IF c THEN {} ELSE {l}
S(s, t, i) == Get(s.st, <<t, i>>, 0)
W(s, t, i) == Get(s.wk, <<t, i>>, 0)
(* the slots whose strong handle an operation gives up or replaces *)
Giving(s, o) == CASE o.k \in {"n", "b", "u"} -> {<<o.t, o.j>>}
                  [] o.k \in {"c", "C", "m", "M"} -> IF o.i = o.j THEN {} ELSE {<<o.t, o.j>>}
                  [] o.k = "x" -> {<<o.t, o.i>>}
                  [] OTHER -> {}
Leaving(s) == UNION {Giving(s, s.run[t]) : t \in DOMAIN s.run}
Owned(s, o) == \E h \in DOMAIN s.st : s.st[h] = o                       \* by any handle
Stable(s, o) == \E h \in DOMAIN s.st \ Leaving(s) : s.st[h] = o         \* by a handle nobody is giving up
(* after the operation e (an opd event) *)
StAfter(s, e) ==
    LET t == e.t
    IN  CASE e.k \in {"n", "b"} -> Set(s.st, <<t, e.j>>, e.o)
          [] e.k \in {"c", "C"} -> Set(s.st, <<t, e.j>>, S(s, t, e.i))
          [] e.k \in {"m", "M"} -> IF e.i = e.j THEN s.st ELSE Set(Set(s.st, <<t, e.j>>, S(s, t, e.i)), <<t, e.i>>, 0)
          [] e.k = "s" -> Set(Set(s.st, <<t, e.j>>, S(s, t, e.i)), <<t, e.i>>, S(s, t, e.j))
          [] e.k = "x" -> Set(s.st, <<t, e.i>>, 0)
          [] e.k = "u" -> Set(s.st, <<t, e.j>>, e.o)
          [] OTHER -> s.st
WkAfter(s, e) ==
    LET t == e.t
    IN  CASE e.k = "w" -> Set(s.wk, <<t, e.j>>, S(s, t, e.i))
          [] e.k = "W" -> Set(s.wk, <<t, e.j>>, W(s, t, e.i))
          [] e.k = "V" -> IF e.i = e.j THEN s.wk ELSE Set(Set(s.wk, <<t, e.j>>, W(s, t, e.i)), <<t, e.i>>, 0)
          [] e.k = "y" -> Set(s.wk, <<t, e.i>>, 0)
          [] OTHER -> s.wk
Raw(s, e) ==
    CASE e.ev = "op" -> [s EXCEPT !.run = Put(s.run, e.t, [t |-> e.t, k |-> e.k, i |-> e.i, j |-> e.j]), !.born = IF e.o > 0 THEN @ \cup {e.o} ELSE @, !.lost = @ \ {e.t}]
      [] e.ev = "opd" -> [s EXCEPT !.run = Del(s.run, e.t), !.st = StAfter(s, e), !.wk = WkAfter(s, e)]
      [] e.ev = "give" -> IF e.k = "s" THEN [s EXCEPT !.st = Set(s.st, <<e.b, e.j>>, S(s, e.a, e.i))] ELSE [s EXCEPT !.wk = Set(s.wk, <<e.b, e.j>>, W(s, e.a, e.i))]
      [] e.ev = "dead" -> [s EXCEPT !.dead = @ \cup {e.o}]
      [] OTHER -> s
Upd(s, e) ==
    LET n == Raw(s, e)
    IN  [n EXCEPT !.lost = @ \cup {t \in DOMAIN n.run : n.run[t].k = "u" /\ ~Stable(n, W(n, t, n.run[t].i))}]
Viol(s, e) ==
    CASE e.ev = "dead" -> Chk(e.o \in s.born /\ e.o \notin s.dead, "P18.once") \cup Chk(~Stable(s, e.o), "P18.early")
      [] e.ev = "opd" ->
            LET n == Upd(s, e)
            IN  (CASE e.k = "u" -> IF e.ok = 1 THEN Chk(e.o = W(s, e.t, e.i) /\ e.o # 0 /\ e.o \notin s.dead, "P18.upgrade")
                                   ELSE Chk(W(s, e.t, e.i) = 0 \/ e.t \in s.lost, "P18.upgrade")
                   [] e.k = "r" -> Chk(e.o = S(s, e.t, e.i) /\ e.ok = 1, "P18.object")
                   [] e.k = "b" -> Chk(e.ok = 1, "P18.box")
                   [] e.k = "g" -> Chk(DOMAIN n.run # {} \/ e.cnt = Cardinality({h \in DOMAIN n.st : n.st[h] = S(s, e.t, e.i) /\ S(s, e.t, e.i) # 0}), "P18.count")
                   [] OTHER -> {})
                \cup Chk(DOMAIN n.run # {} \/ \A o \in n.born : Owned(n, o) \/ o \in n.dead, "P18.late")
      [] e.ev = "end" -> Chk(e.leaked = 0, "P18.leak")
      [] e.ev \in {"fatal", "crash", "hang"} -> {"P18.alive"}
      [] OTHER -> {}
=============================================================================
