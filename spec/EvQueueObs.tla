----------------------------- MODULE EvQueueObs -----------------------------
(***************************************************************************)
(* What a user of MPSCQueueEventDriven and MPMCQueueEventDriven observes   *)
(* (property P16).  Producers put values (events put and putd bracket the  *)
(* call); the handler registered on an event loop takes them (event got,   *)
(* on the thread of that loop).  Nothing is lost, duplicated or invented,  *)
(* the values of one producer are taken in order (at one loop when there   *)
(* are several), and whenever everything has come to rest no value is left *)
(* in the queue: the handler is always called again for what remains.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [thr |-> <<>>, loops |-> 1, put |-> {}, putd |-> {}, got |-> {}, last |-> <<>>, up |-> {}]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
P(v) == v \div 1000
Viol(s, e) ==
    CASE e.ev = "got" ->
            (IF e.v \in s.put THEN {} ELSE {"P16.invented"})
            \cup (IF e.v \notin s.got THEN {} ELSE {"P16.duplicate"})
            \cup (IF Get(s.thr, e.loop, -1) = e.thr THEN {} ELSE {"P16.thread"})
            \cup (IF Get(s.last, <<e.loop, P(e.v)>>, 0) < e.v THEN {} ELSE {"P16.order"})
            \cup (IF s.loops > 1 \/ \A x \in s.put : (P(x) = P(e.v) /\ x < e.v) => x \in s.got THEN {} ELSE {"P16.order"})
      [] e.ev = "quiet" -> IF s.up = {} \/ s.putd \subseteq s.got THEN {} ELSE {"P16.left"}
      [] e.ev \in {"fatal", "crash", "hang"} -> {"P16.alive"}
      [] OTHER -> {}
Upd(s, e) ==
    CASE e.ev = "evq" -> [s EXCEPT !.loops = e.loops]
      [] e.ev = "loop" -> [s EXCEPT !.thr = Put(s.thr, e.loop, e.thr), !.up = @ \cup {e.loop}]
      [] e.ev = "put" -> [s EXCEPT !.put = @ \cup {e.v}]
      [] e.ev = "putd" -> [s EXCEPT !.putd = @ \cup {e.v}]
      [] e.ev = "got" -> [s EXCEPT !.got = @ \cup {e.v}, !.last = Put(s.last, <<e.loop, P(e.v)>>, e.v)]
      [] OTHER -> s
=============================================================================
