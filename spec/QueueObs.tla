------------------------------ MODULE QueueObs ------------------------------
(***************************************************************************)
(* The queue a user of MPMCQueue and MPSCQueue relies on (property P15): a *)
(* linearizable FIFO queue.  A history is a sequence of call and ret       *)
(* events; every call carries the result its operation returned, and the   *)
(* history is accepted iff each operation can be given a moment between    *)
(* its call and its return at which it takes effect on a sequential queue. *)
(*                                                                         *)
(* Sequential behaviour:                                                   *)
(*   e  append, never refused                                              *)
(*   b  append to a bounded queue; refused only if it is (nearly) full     *)
(*   d  remove the first element; fails only if the queue is empty         *)
(*   r  put an element back in front (MPSC, by the consumer)               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* slots: capacity of a bounded queue (0: not bounded); blk: size of the blocks it is made of, which are handed  *)
(* out one at a time: up to one of them may be tied up by each operation that overlaps                          *)
Enabled(q, o, slots, blk, others) ==
    CASE o.op = "e" -> o.ok
      [] o.op = "b" -> IF o.ok THEN slots = 0 \/ Len(q) < slots
                       ELSE slots > 0 /\ Len(q) >= slots - blk - blk * others
      [] o.op = "d" -> IF o.ok THEN q # <<>> /\ Head(q) = o.v ELSE q = <<>>
      [] o.op = "r" -> TRUE
Apply(q, o) ==
    CASE o.op \in {"e", "b"} -> IF o.ok THEN Append(q, o.v) ELSE q
      [] o.op = "d" -> IF o.ok THEN Tail(q) ELSE q
      [] o.op = "r" -> <<o.v>> \o q
=============================================================================
