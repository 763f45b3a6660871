--------------------------------- MODULE EvQ --------------------------------
(***************************************************************************)
(* Design of the event-driven queues (event.h): the wake-up protocol of    *)
(* wait_sig and the notification descriptor around a FIFO queue (which     *)
(* MPMC.tla refines).  Composed with EvQueueObs: every step emits the      *)
(* event the harness records from the real code, and NoViol says that the  *)
(* observer accepts it.                                                    *)
(***************************************************************************)
EXTENDS EvQueueObs
CONSTANTS Producers, Loops, NPut, Burst, Multi    \* Multi: MPMC flavour (the read tells who may go on)
VARIABLES q, wait, nfd, ppc, sent, lpc, cnt, obs, viol
vars == <<q, wait, nfd, ppc, sent, lpc, cnt, obs, viol>>
Emit(e) == obs' = Upd(obs, e) /\ viol' = viol \cup Viol(obs, e)
Silent == UNCHANGED <<obs, viol>>
Init == /\ q = <<>> /\ wait = TRUE /\ nfd = 0
        /\ ppc = [p \in Producers |-> "idle"] /\ sent = [p \in Producers |-> 0]
        /\ lpc = [l \in Loops |-> "idle"] /\ cnt = [l \in Loops |-> 0]
        /\ obs = [Init0 EXCEPT !.loops = Cardinality(Loops), !.thr = [l \in Loops |-> l], !.up = Loops]
        /\ viol = {}
Val(p, k) == p * 1000 + k
(* producers: enqueue; exchange wait_sig; notify *)
Call(p) == /\ ppc[p] = "idle" /\ sent[p] < NPut /\ ppc' = [ppc EXCEPT ![p] = "enq"] /\ sent' = [sent EXCEPT ![p] = @ + 1]
           /\ Emit([ev |-> "put", v |-> Val(p, sent[p] + 1)]) /\ UNCHANGED <<q, wait, nfd, lpc, cnt>>
Enq(p) == /\ ppc[p] = "enq" /\ q' = Append(q, Val(p, sent[p])) /\ ppc' = [ppc EXCEPT ![p] = "xchg"] /\ Silent /\ UNCHANGED <<wait, nfd, sent, lpc, cnt>>
Xchg(p) == /\ ppc[p] = "xchg" /\ wait' = FALSE /\ ppc' = [ppc EXCEPT ![p] = IF wait THEN "notify" ELSE "ret"] /\ Silent /\ UNCHANGED <<q, nfd, sent, lpc, cnt>>
Notify(p) == /\ ppc[p] = "notify" /\ nfd' = nfd + 1 /\ ppc' = [ppc EXCEPT ![p] = "ret"] /\ Silent /\ UNCHANGED <<q, wait, sent, lpc, cnt>>
Ret(p) == /\ ppc[p] = "ret" /\ ppc' = [ppc EXCEPT ![p] = "idle"] /\ Emit([ev |-> "putd", v |-> Val(p, sent[p])]) /\ UNCHANGED <<q, wait, nfd, sent, lpc, cnt>>
(* a loop: poll; read the descriptor; exchange wait_sig; the handler, element by element; notify itself when cut short *)
Poll(l) == /\ lpc[l] = "idle" /\ nfd > 0 /\ lpc' = [lpc EXCEPT ![l] = "reset"] /\ Silent /\ UNCHANGED <<q, wait, nfd, ppc, sent, cnt>>
Reset(l) == /\ lpc[l] = "reset" /\ nfd' = 0 /\ lpc' = [lpc EXCEPT ![l] = IF Multi /\ nfd = 0 THEN "idle" ELSE "arm"] /\ Silent /\ UNCHANGED <<q, wait, ppc, sent, cnt>>
Arm(l) == /\ lpc[l] = "arm" /\ wait' = TRUE /\ lpc' = [lpc EXCEPT ![l] = "take"] /\ cnt' = [cnt EXCEPT ![l] = 0] /\ Silent /\ UNCHANGED <<q, nfd, ppc, sent>>
Take(l) == /\ lpc[l] = "take" /\ q # <<>> /\ q' = Tail(q) /\ cnt' = [cnt EXCEPT ![l] = @ + 1]
           /\ lpc' = [lpc EXCEPT ![l] = IF cnt[l] + 1 = Burst THEN "again" ELSE "take"]
           /\ Emit([ev |-> "got", v |-> Head(q), loop |-> l, thr |-> l]) /\ UNCHANGED <<wait, nfd, ppc, sent>>
Empty(l) == /\ lpc[l] = "take" /\ q = <<>> /\ lpc' = [lpc EXCEPT ![l] = "idle"] /\ Silent /\ UNCHANGED <<q, wait, nfd, ppc, sent, cnt>>
Again(l) == /\ lpc[l] = "again" /\ nfd' = nfd + 1 /\ lpc' = [lpc EXCEPT ![l] = "idle"] /\ Silent /\ UNCHANGED <<q, wait, ppc, sent, cnt>>
Rest == /\ \A p \in Producers : ppc[p] = "idle" /\ sent[p] = NPut
        /\ \A l \in Loops : lpc[l] = "idle"
        /\ nfd = 0
Quiet == Rest /\ Emit([ev |-> "quiet"]) /\ UNCHANGED <<q, wait, nfd, ppc, sent, lpc, cnt>>
Next == \/ \E p \in Producers : Call(p) \/ Enq(p) \/ Xchg(p) \/ Notify(p) \/ Ret(p)
        \/ \E l \in Loops : Poll(l) \/ Reset(l) \/ Arm(l) \/ Take(l) \/ Empty(l) \/ Again(l)
        \/ Quiet
Fair == /\ \A p \in Producers : WF_vars(Call(p) \/ Enq(p) \/ Xchg(p) \/ Notify(p) \/ Ret(p))
        /\ \A l \in Loops : WF_vars(Poll(l) \/ Reset(l) \/ Arm(l) \/ Take(l) \/ Empty(l) \/ Again(l))
Spec == Init /\ [][Next]_vars /\ Fair
NoViol == viol = {}
AllTaken == <>[](q = <<>>)
=============================================================================
