------------------------------ MODULE TraceEvQueue ------------------------------
(* Checks traces recorded from the implementation against EvQueueObs: every    *)
(* event of every trace has to be allowed in the state reached so far.     *)
EXTENDS EvQueueObs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Enforce(l) == \E p \in {IOEnv.PROP} : SubSeq(l, 1, Len(p)) = p
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Init0
Next == /\ l <= Len(Traces[tid])
        /\ LET e == Traces[tid][l]
               v == {x \in Viol(st, e) : Enforce(x)}
           IN  IF v = {} THEN /\ l' = l + 1 /\ st' = Upd(st, e)
                              /\ (l = Len(Traces[tid])) => PrintT(<<"DONE", tid>>)
               ELSE /\ PrintT(<<"VIOL", tid, l, v>>) /\ l' = Len(Traces[tid]) + 1 /\ UNCHANGED st
        /\ UNCHANGED tid
=============================================================================
