----------------------------- MODULE TraceQueue -----------------------------
(* Searches a linearization of every recorded history (see QueueObs).  An operation takes effect only when a    *)
(* return asks for it, which loses no linearization.                                                            *)
EXTENDS QueueObs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, q, pend, done, slots, blk
vars == <<tid, l, q, pend, done, slots, blk>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ q = <<>> /\ pend = <<>> /\ done = {} /\ slots = 0 /\ blk = 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
E == Traces[tid][l]
Show == "SHOW" \in DOMAIN IOEnv
Fin == (l = Len(Traces[tid]) => PrintT(<<"DONE", tid>>)) /\ (Show => PrintT(<<"AT", tid, l + 1>>))
Next ==
    /\ l <= Len(Traces[tid])
    /\ UNCHANGED tid
    /\ CASE E.ev = "q" -> l' = l + 1 /\ slots' = E.slots /\ blk' = E.blk /\ UNCHANGED <<q, pend, done>> /\ Fin
         [] E.ev = "call" -> l' = l + 1 /\ pend' = Put(pend, E.t, [op |-> E.op, v |-> E.v, ok |-> E.ok]) /\ UNCHANGED <<q, done, slots, blk>> /\ Fin
         [] E.ev = "ret" -> IF E.t \in done
                            THEN l' = l + 1 /\ done' = done \ {E.t} /\ UNCHANGED <<q, pend, slots, blk>> /\ Fin
                            ELSE \E t \in DOMAIN pend :
                                    /\ Enabled(q, pend[t], slots, blk, Cardinality(DOMAIN pend \cup done) - 1)
                                    /\ q' = Apply(q, pend[t]) /\ pend' = Del(pend, t) /\ done' = done \cup {t}
                                    /\ UNCHANGED <<l, slots, blk>>
         [] E.ev \in {"fatal", "crash", "hang", "eaten"} -> FALSE /\ UNCHANGED vars
         [] OTHER -> l' = l + 1 /\ UNCHANGED <<q, pend, done, slots, blk>> /\ Fin
=============================================================================
