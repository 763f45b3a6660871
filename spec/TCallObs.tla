------------------------------ MODULE TCallObs ------------------------------
(***************************************************************************)
(* Cross-thread calls as their users see them (property P17).  A closure   *)
(* posted to a ThreadCall (post; posted when an asynchronous call returns, *)
(* res when a synchronous one does) runs exactly once on the thread of the *)
(* event loop (run, end), in the order of the calls, and is destroyed      *)
(* afterwards (gone); a synchronous call returns what the closure produced *)
(* or threw.  After stop() closures are dropped instead, and synchronous   *)
(* calls fail.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [loop |-> <<>>, thr |-> <<>>, up |-> {}, stopped |-> {}, freeing |-> {}, busy |-> <<>>,
          posts |-> <<>>,   \* id -> [tc, by, kind, sync, before: ids whose call had returned before this one was made]
          done |-> {},      \* calls that returned
          ran |-> {}, ended |-> {}, gone |-> {}]
NotAvail == 28
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Chk(c, l) == IF c THEN {} ELSE {l}
Waiting(s, i) == i \notin s.ran /\ i \notin s.gone
Viol(s, e) ==
    CASE e.ev = "run" ->
            IF e.id \notin DOMAIN s.posts THEN {"P17.invented"} ELSE
            LET p == s.posts[e.id] IN
            Chk(e.id \notin s.ran, "P17.once") \cup Chk(e.id \notin s.gone, "P17.dropped")
            \cup Chk(Get(s.thr, s.loop[p.tc], -1) = e.thr, "P17.thread")
            \cup Chk(p.tc \notin s.stopped, "P17.stopped")
            \cup Chk(p.tc \notin s.freeing, "P17.freed")
            \cup Chk(Get(s.busy, s.loop[p.tc], 0) = 0, "P17.atomic")
            \cup Chk(\A i \in DOMAIN s.posts : (s.posts[i].tc = p.tc /\ i # e.id /\ (i \in p.before \/ (s.posts[i].by = p.by /\ i < e.id))) => ~Waiting(s, i), "P17.order")
      [] e.ev = "gone" ->
            IF e.id \notin DOMAIN s.posts THEN {"P17.invented"} ELSE
            LET p == s.posts[e.id] IN
            Chk(e.id \notin s.gone, "P17.once")
            \cup Chk(e.id \in s.ended \/ (e.id \notin s.ran /\ (p.tc \in s.stopped \/ p.tc \in s.freeing)), "P17.dropped")
      [] e.ev = "res" ->
            LET p == s.posts[e.id] IN
            IF e.what = "error" THEN Chk(p.tc \in s.stopped /\ e.v = NotAvail /\ e.id \notin s.ran, "P17.result")
            ELSE Chk(e.id \in s.ended /\ (CASE p.kind = "c" -> e.what = "val" /\ e.v = e.id * 10
                                            [] p.kind = "S" -> e.what = "str"
                                            [] p.kind = "v" -> e.what = "null"
                                            [] p.kind = "C" -> e.what = "boom" /\ e.v = e.id
                                            [] OTHER -> FALSE), "P17.result")
      [] e.ev = "quiet" ->
            Chk(\A i \in DOMAIN s.posts : s.loop[s.posts[i].tc] \in s.up => ~Waiting(s, i) /\ i \in s.done /\ (i \in s.ran => i \in s.ended) /\ i \in s.gone, "P17.left")
      [] e.ev = "freed" -> Chk(\A i \in DOMAIN s.posts : s.posts[i].tc = e.tc => i \in s.gone, "P17.leak")
      [] e.ev \in {"fatal", "crash", "hang"} -> {"P17.alive"}
      [] OTHER -> {}
Upd(s, e) ==
    CASE e.ev = "tc" -> [s EXCEPT !.loop = Put(s.loop, e.tc, e.loop)]
      [] e.ev = "loop" -> [s EXCEPT !.thr = Put(s.thr, e.loop, e.thr), !.up = @ \cup {e.loop}]
      [] e.ev = "loopend" -> [s EXCEPT !.up = @ \ {e.loop}]
      [] e.ev = "post" -> [s EXCEPT !.posts = Put(s.posts, e.id, [tc |-> e.tc, by |-> e.by, kind |-> e.kind, sync |-> e.sync, before |-> {i \in s.done : s.posts[i].tc = e.tc}])]
      [] e.ev \in {"posted", "res"} -> [s EXCEPT !.done = @ \cup {e.id}]
      [] e.ev = "run" -> [s EXCEPT !.ran = @ \cup {e.id}, !.busy = Put(s.busy, s.loop[s.posts[e.id].tc], e.id)]
      [] e.ev = "end" -> [s EXCEPT !.ended = @ \cup {e.id}, !.busy = Put(s.busy, s.loop[s.posts[e.id].tc], 0)]
      [] e.ev = "gone" -> [s EXCEPT !.gone = @ \cup {e.id}]
      [] e.ev = "stopped" -> [s EXCEPT !.stopped = @ \cup {e.tc}]
      [] e.ev = "free" -> [s EXCEPT !.freeing = @ \cup {e.tc}]
      [] OTHER -> s
=============================================================================
