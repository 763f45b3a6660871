--------------------------------- MODULE Arc --------------------------------
(***************************************************************************)
(* Design of the shared control block of ArcObj (ref.h): strong count,     *)
(* weak count (all strong handles together hold one weak reference), and   *)
(* the destruction of the object and of the block.  Threads copy, upgrade  *)
(* and drop handles of one object; one label is one atomic operation.      *)
(* Composed with RefObs: what the threads do is told to the observer in    *)
(* the events the harness records.                                         *)
(***************************************************************************)
EXTENDS RefObs
CONSTANTS Start,    \* thread -> [s: it holds a strong handle, w: it holds a weak one]
          MaxOps
T == DOMAIN Start
O == 1
VARIABLES ref, weak, objdead, blkfree, strong, wk, pc, op, seen, nops, obs, viol
vars == <<ref, weak, objdead, blkfree, strong, wk, pc, op, seen, nops, obs, viol>>
Emit(e) == obs' = Upd(obs, e) /\ viol' = viol \cup Viol(obs, e)
Silent == UNCHANGED <<obs, viol>>
NS == Cardinality({t \in T : Start[t].s})
NW == Cardinality({t \in T : Start[t].w})
Init == /\ ref = NS /\ weak = 1 + NW /\ objdead = FALSE /\ blkfree = FALSE
        /\ strong = [t \in T |-> IF Start[t].s THEN {1} ELSE {}] /\ wk = [t \in T |-> IF Start[t].w THEN {1} ELSE {}]
        /\ pc = [t \in T |-> "idle"] /\ op = [t \in T |-> ""] /\ seen = [t \in T |-> 0] /\ nops = [t \in T |-> 0]
        /\ obs = [Init0 EXCEPT !.st = [h \in {<<t, 1>> : t \in {t \in T : Start[t].s}} |-> O], !.wk = [h \in {<<t, 1>> : t \in {t \in T : Start[t].w}} |-> O], !.born = {O}]
        /\ viol = {}
Ev(ev, t, k, i, j, o, ok) == [ev |-> ev, t |-> t, k |-> k, i |-> i, j |-> j, o |-> o, ok |-> ok, cnt |-> 0]
Slots == {1, 2}
Begin(t, k, i, j, next) ==
    /\ pc[t] = "idle" /\ nops[t] < MaxOps /\ pc' = [pc EXCEPT ![t] = next] /\ op' = [op EXCEPT ![t] = <<k, i, j>>] /\ nops' = [nops EXCEPT ![t] = @ + 1]
    /\ Emit(Ev("op", t, k, i, j, 0, 0)) /\ UNCHANGED <<ref, weak, objdead, blkfree, strong, wk, seen>>
K(t) == op[t][1]
I(t) == op[t][2]
J(t) == op[t][3]
Alive == Assert(~blkfree, "control block used after it was freed")
Calls(t) == \/ \E i \in strong[t], j \in Slots \ strong[t] : Begin(t, "c", i, j, "addref")      \* copy a strong handle
            \/ \E i \in strong[t] : Begin(t, "x", i, 0, "decref")                               \* drop a strong handle
            \/ \E i \in strong[t], j \in Slots \ wk[t] : Begin(t, "w", i, j, "addweak")         \* make a weak handle
            \/ \E i \in wk[t], j \in Slots \ wk[t] : Begin(t, "W", i, j, "addweak")             \* copy a weak handle
            \/ \E i \in wk[t] : Begin(t, "y", i, 0, "decweak")                                  \* drop a weak handle
            \/ \E i \in wk[t], j \in Slots \ strong[t] : Begin(t, "u", i, j, "load")            \* upgrade
AddRef(t) == /\ pc[t] = "addref" /\ Alive /\ ref' = ref + 1 /\ pc' = [pc EXCEPT ![t] = "ok"] /\ Silent /\ UNCHANGED <<weak, objdead, blkfree, strong, wk, op, seen, nops>>
AddWeak(t) == /\ pc[t] = "addweak" /\ Alive /\ weak' = weak + 1 /\ pc' = [pc EXCEPT ![t] = "ok"] /\ Silent /\ UNCHANGED <<ref, objdead, blkfree, strong, wk, op, seen, nops>>
Load(t) == /\ pc[t] = "load" /\ Alive /\ seen' = [seen EXCEPT ![t] = ref] /\ pc' = [pc EXCEPT ![t] = IF ref = 0 THEN "fail" ELSE "cas"] /\ Silent /\ UNCHANGED <<ref, weak, objdead, blkfree, strong, wk, op, nops>>
Cas(t) == /\ pc[t] = "cas" /\ Alive /\ IF ref = seen[t] THEN ref' = ref + 1 /\ pc' = [pc EXCEPT ![t] = "ok"] /\ UNCHANGED seen
                                        ELSE seen' = [seen EXCEPT ![t] = ref] /\ pc' = [pc EXCEPT ![t] = IF ref = 0 THEN "fail" ELSE "cas"] /\ UNCHANGED ref
          /\ Silent /\ UNCHANGED <<weak, objdead, blkfree, strong, wk, op, nops>>
DecRef(t) == /\ pc[t] = "decref" /\ Alive /\ Assert(ref > 0, "strong count below zero") /\ ref' = ref - 1 /\ pc' = [pc EXCEPT ![t] = IF ref = 1 THEN "relweak" ELSE "ok"]
             /\ Silent /\ UNCHANGED <<weak, objdead, blkfree, strong, wk, op, seen, nops>>
RelWeak(t) == /\ pc[t] \in {"relweak", "decweak"} /\ Alive /\ weak' = weak - 1
              /\ pc' = [pc EXCEPT ![t] = IF weak = 1 THEN (IF @ = "relweak" THEN "freekill" ELSE "free") ELSE IF @ = "relweak" THEN "kill" ELSE "ok"]
              /\ Silent /\ UNCHANGED <<ref, objdead, blkfree, strong, wk, op, seen, nops>>
FreeBlk(t) == /\ pc[t] \in {"free", "freekill"} /\ Assert(~blkfree, "control block freed twice") /\ blkfree' = TRUE
              /\ pc' = [pc EXCEPT ![t] = IF @ = "free" THEN "ok" ELSE "kill"] /\ Silent /\ UNCHANGED <<ref, weak, objdead, strong, wk, op, seen, nops>>
Kill(t) == /\ pc[t] = "kill" /\ objdead' = TRUE /\ pc' = [pc EXCEPT ![t] = "ok"] /\ Emit([ev |-> "dead", o |-> O]) /\ UNCHANGED <<ref, weak, blkfree, strong, wk, op, seen, nops>>
End(t) == /\ pc[t] \in {"ok", "fail"} /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ strong' = [strong EXCEPT ![t] = CASE pc[t] = "fail" -> @ [] K(t) \in {"c", "u"} -> @ \cup {J(t)} [] K(t) = "x" -> @ \ {I(t)} [] OTHER -> @]
          /\ wk' = [wk EXCEPT ![t] = CASE K(t) \in {"w", "W"} -> @ \cup {J(t)} [] K(t) = "y" -> @ \ {I(t)} [] OTHER -> @]
          /\ Emit(Ev("opd", t, K(t), I(t), J(t), IF K(t) = "u" /\ pc[t] = "ok" THEN O ELSE 0, IF pc[t] = "ok" THEN 1 ELSE 0))
          /\ UNCHANGED <<ref, weak, objdead, blkfree, op, seen, nops>>
Next == \E t \in T : Calls(t) \/ AddRef(t) \/ AddWeak(t) \/ Load(t) \/ Cas(t) \/ DecRef(t) \/ RelWeak(t) \/ FreeBlk(t) \/ Kill(t) \/ End(t)
Spec == Init /\ [][Next]_vars
NoViol == viol = {}
Idle == \A t \in T : pc[t] = "idle"
(* at rest the counts are those of the handles, the object lives iff it is owned, the block iff anything refers to it *)
NStrong == Cardinality({<<t, i>> \in T \X Slots : i \in strong[t]})
NWeak == Cardinality({<<t, i>> \in T \X Slots : i \in wk[t]})
Counts == Idle => /\ ref = NStrong /\ objdead = (NStrong = 0) /\ blkfree = (NStrong + NWeak = 0)
                  /\ weak = NWeak + (IF NStrong > 0 THEN 1 ELSE 0)
S1 == 1 :> [s |-> TRUE, w |-> FALSE] @@ 2 :> [s |-> FALSE, w |-> TRUE] @@ 3 :> [s |-> TRUE, w |-> TRUE]
S2 == 1 :> [s |-> TRUE, w |-> TRUE] @@ 2 :> [s |-> TRUE, w |-> TRUE]
=============================================================================
