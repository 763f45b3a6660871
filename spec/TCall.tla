-------------------------------- MODULE TCall -------------------------------
(***************************************************************************)
(* Design of ThreadCall (event.h): closures handed over through a queue    *)
(* whose wake-up is modelled in EvQ.tla; here the loop simply takes the    *)
(* next one.  stop() is called on the loop thread (by a closure); the      *)
(* destructor runs after the loop has ended and drops what is left.        *)
(* Composed with TCallObs.                                                 *)
(***************************************************************************)
EXTENDS TCallObs
CONSTANTS Callers,  \* caller -> sequence of "a" (asynchronous), "c" (synchronous), "C" (synchronous, throws), "s" (asynchronous, stops)
          EndsLoop  \* the loop may end at any moment, the ThreadCall is then destroyed
Who == DOMAIN Callers
VARIABLES q, todo, cpc, cid, nid, lpc, cur, stopd, slot, obs, viol
vars == <<q, todo, cpc, cid, nid, lpc, cur, stopd, slot, obs, viol>>
Emit(e) == obs' = Upd(obs, e) /\ viol' = viol \cup Viol(obs, e)
Silent == UNCHANGED <<obs, viol>>
TC == 1
LP == 1
Init == /\ q = <<>> /\ todo = Callers /\ cpc = [w \in Who |-> "idle"] /\ cid = [w \in Who |-> 0] /\ nid = 1
        /\ lpc = "idle" /\ cur = [id |-> 0, k |-> ""] /\ stopd = FALSE
        /\ slot = <<>>       \* id -> what the caller waiting for it is told
        /\ obs = [Init0 EXCEPT !.loop = TC :> LP, !.thr = LP :> 0, !.up = {LP}] /\ viol = {}
Sync(k) == k \in {"c", "C"}
Post(w) == /\ cpc[w] = "idle" /\ todo[w] # <<>> /\ cpc' = [cpc EXCEPT ![w] = "enq"] /\ cid' = [cid EXCEPT ![w] = nid] /\ nid' = nid + 1
           /\ Emit([ev |-> "post", id |-> nid, tc |-> TC, by |-> w, kind |-> Head(todo[w]), sync |-> Sync(Head(todo[w]))])
           /\ UNCHANGED <<q, todo, lpc, cur, stopd, slot>>
Enq(w) == /\ cpc[w] = "enq" /\ q' = Append(q, [id |-> cid[w], k |-> Head(todo[w])]) /\ cpc' = [cpc EXCEPT ![w] = IF Sync(Head(todo[w])) THEN "wait" ELSE "ret"]
          /\ Silent /\ UNCHANGED <<todo, cid, nid, lpc, cur, stopd, slot>>
Ret(w) == /\ cpc[w] = "ret" /\ cpc' = [cpc EXCEPT ![w] = "idle"] /\ todo' = [todo EXCEPT ![w] = Tail(@)]
          /\ Emit([ev |-> "posted", id |-> cid[w]]) /\ UNCHANGED <<q, cid, nid, lpc, cur, stopd, slot>>
Wake(w) == /\ cpc[w] = "wait" /\ cid[w] \in DOMAIN slot /\ cpc' = [cpc EXCEPT ![w] = "idle"] /\ todo' = [todo EXCEPT ![w] = Tail(@)]
           /\ Emit([ev |-> "res", id |-> cid[w], what |-> slot[cid[w]].what, v |-> slot[cid[w]].v]) /\ UNCHANGED <<q, cid, nid, lpc, cur, stopd, slot>>
(* the loop *)
Take == /\ lpc = "idle" /\ q # <<>> /\ cur' = Head(q) /\ q' = Tail(q) /\ lpc' = IF stopd THEN "refuse" ELSE "run"
        /\ Silent /\ UNCHANGED <<todo, cpc, cid, nid, stopd, slot>>
Run == /\ lpc = "run" /\ lpc' = "body" /\ Emit([ev |-> "run", id |-> cur.id, thr |-> 0]) /\ UNCHANGED <<q, todo, cpc, cid, nid, cur, stopd, slot>>
Stop == /\ lpc = "body" /\ cur.k = "s" /\ ~stopd /\ stopd' = TRUE /\ Emit([ev |-> "stopped", tc |-> TC]) /\ UNCHANGED <<q, todo, cpc, cid, nid, lpc, cur, slot>>
End == /\ lpc = "body" /\ (cur.k = "s" => stopd) /\ lpc' = "reply" /\ Emit([ev |-> "end", id |-> cur.id]) /\ UNCHANGED <<q, todo, cpc, cid, nid, cur, stopd, slot>>
Reply == /\ lpc \in {"reply", "refuse"} /\ lpc' = "delete"
         /\ slot' = IF ~Sync(cur.k) THEN slot ELSE
                    Put(slot, cur.id, IF lpc = "refuse" THEN [what |-> "error", v |-> NotAvail]
                                      ELSE IF cur.k = "c" THEN [what |-> "val", v |-> cur.id * 10] ELSE [what |-> "boom", v |-> cur.id])
         /\ Silent /\ UNCHANGED <<q, todo, cpc, cid, nid, cur, stopd>>
Delete == /\ lpc = "delete" /\ lpc' = "idle" /\ Emit([ev |-> "gone", id |-> cur.id]) /\ cur' = [id |-> 0, k |-> ""] /\ UNCHANGED <<q, todo, cpc, cid, nid, stopd, slot>>
(* asynchronous callers only may outlive the loop: a synchronous caller would wait for ever, which is the user's business *)
Leave == /\ EndsLoop /\ lpc = "idle" /\ \A w \in Who : cpc[w] # "wait" /\ \A j \in 1..Len(todo[w]) : ~Sync(todo[w][j])
         /\ lpc' = "left" /\ Emit([ev |-> "loopend", loop |-> LP]) /\ UNCHANGED <<q, todo, cpc, cid, nid, cur, stopd, slot>>
Free == /\ lpc = "left" /\ \A w \in Who : cpc[w] = "idle" /\ todo[w] = <<>> /\ lpc' = "drop" /\ Emit([ev |-> "free", tc |-> TC]) /\ UNCHANGED <<q, todo, cpc, cid, nid, cur, stopd, slot>>
Drop == /\ lpc = "drop" /\ q # <<>> /\ q' = Tail(q) /\ Emit([ev |-> "gone", id |-> Head(q).id]) /\ UNCHANGED <<todo, cpc, cid, nid, lpc, cur, stopd, slot>>
Freed == /\ lpc = "drop" /\ q = <<>> /\ lpc' = "freed" /\ Emit([ev |-> "freed", tc |-> TC]) /\ UNCHANGED <<q, todo, cpc, cid, nid, cur, stopd, slot>>
Rest == lpc = "idle" /\ q = <<>> /\ \A w \in Who : cpc[w] = "idle" /\ todo[w] = <<>>
Quiet == Rest /\ Emit([ev |-> "quiet"]) /\ UNCHANGED <<q, todo, cpc, cid, nid, lpc, cur, stopd, slot>>
Step == (\E w \in Who : Post(w) \/ Enq(w) \/ Ret(w) \/ Wake(w)) \/ Take \/ Run \/ Stop \/ End \/ Reply \/ Delete \/ Free \/ Drop \/ Freed
Next == Step \/ Leave \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
NoViol == viol = {}
Done == <>(Rest \/ lpc = "freed")
C1 == 1 :> <<"a", "c">> @@ 2 :> <<"C", "a">> @@ 3 :> <<"s", "c">>
C3 == 1 :> <<"a", "c">> @@ 2 :> <<"s", "C">>
C4 == 1 :> <<"a", "a">> @@ 2 :> <<"a", "s">>
C2 == 1 :> <<"a", "a">> @@ 2 :> <<"a", "s">> @@ 3 :> <<"a">>
=============================================================================
