-------------------------------- MODULE MPMC --------------------------------
(***************************************************************************)
(* Design of the lock-free queue (include/salticidae/queue.h): a list of   *)
(* blocks of B slots, recycled through a reference-counted free list.  One *)
(* label is one atomic memory operation.  The ghost variable absq is the   *)
(* abstract queue of QueueObs: the model is checked to refine it, that is  *)
(* every operation takes effect on absq between its call and its return,   *)
(* with the result it returns (property P15).  The specification of the    *)
(* operations (Enabled, Apply) is the one the recorded histories of the    *)
(* real queue are judged by.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, QueueObs
CONSTANTS B,        \* slots per block
          NBlk,     \* blocks that may ever exist
          Free0,    \* blocks given to the free list by set_capacity
          Bounded,  \* enqueue refuses instead of allocating
          Script    \* process -> its operations: "e" or "d"
Procs == DOMAIN Script
Blks == 1..NBlk
None == 0
Slots0 == (Free0 + 1) * B

(* --algorithm MPMC {
variables
    top = IF Free0 = 0 THEN None ELSE 2,
    fnext = [b \in Blks |-> IF b >= 2 /\ b <= Free0 THEN b + 1 ELSE None],
    refcnt = [b \in Blks |-> 1], freed = [b \in Blks |-> b >= 2 /\ b <= Free0 + 1],
    alloc = {b \in Blks : b <= Free0 + 1},
    bhead = [b \in Blks |-> 0], btail = [b \in Blks |-> 0], bnext = [b \in Blks |-> None],
    elem = [b \in Blks |-> [i \in 0..B-1 |-> 0]], avail = [b \in Blks |-> [i \in 0..B-1 |-> FALSE]],
    head = 1, tail = 1,
    cur = [q \in Procs |-> ""], saw = [q \in Procs |-> FALSE], absq = <<>>;   \* ghost
define {
    (* what a failing operation claims *)
    Claim(o, q) == IF o = "d" THEN q = <<>> ELSE o = "e" /\ Len(q) >= Slots0 - B - B * (Cardinality(Procs) - 1)
    (* the abstract queue never exceeds what the blocks hold *)
    Capacity == ~Bounded \/ Len(absq) <= Slots0
}
macro release(b, r) { x := b; ret := r; goto R1; }
process (p \in Procs)
variables todo = Script[self], val = 0, blk = None, cnt = 0, hh = 0, tt = 0, nb = None, u = None, nv = None, got = None,
          x = None, ret = "", tp = None, want = 0, n = 0;
{
L0: while (todo # <<>>) {
        cur[self] := Head(todo); todo := Tail(todo); n := n + 1;
        saw[self] := Claim(cur[self], absq);
        if (cur[self] = "e") { val := self * 10 + n; goto E1 } else { goto D1 };
    (* ---------------------------------------------------------- enqueue *)
E1:     blk := tail;
E2:     cnt := refcnt[blk]; if (cnt = 0) { goto E1 };
E3:     if (refcnt[blk] = cnt) { refcnt[blk] := cnt + 1 } else { goto E1 };
E4:     if (freed[blk]) { release(blk, "E1") };
E5:     tt := btail[blk]; if (tt < B) { goto E12 };
E6:     if (bnext[blk] # None) { release(blk, "E1") };
    (* FreeList::pop *)
P1:     u := top; if (u = None) { goto E7n };
P2:     cnt := refcnt[u]; if (cnt = 0) { goto P1 };
P3:     if (refcnt[u] = cnt) { refcnt[u] := cnt + 1 } else { goto P1 };
P4:     nv := fnext[u];
P5:     if (top = u) { top := nv; got := u } else { got := None }; release(u, "P6");
P6:     if (got = None) { goto P1 } else { nb := got; goto E7 };
E7n:    if (Bounded) { release(blk, "FULL") }
        else { assert alloc # Blks; nb := CHOOSE b \in Blks \ alloc : TRUE; alloc := alloc \cup {nb} };
E7:     bhead[nb] := 0;
E7a:    btail[nb] := 0;
E7b:    bnext[nb] := None;
E8:     if (bnext[blk] = None) { bnext[blk] := nb; goto E9 };
E8p:    freed[nb] := TRUE; release(nb, "E11");
E9:     tail := nb;
E10:    freed[nb] := FALSE;
E11:    release(blk, "E1");
E12:    if (btail[blk] = tt) { btail[blk] := tt + 1; absq := Append(absq, val); saw := [q \in Procs |-> saw[q] \/ Claim(cur[q], absq)] } else { release(blk, "E1") };
E13:    assert ~avail[blk][tt]; elem[blk][tt] := val;
E14:    avail[blk][tt] := TRUE; release(blk, "DONE");
    (* ---------------------------------------------------------- dequeue *)
D1:     blk := head;
D2:     cnt := refcnt[blk]; if (cnt = 0) { goto D1 };
D3:     if (refcnt[blk] = cnt) { refcnt[blk] := cnt + 1 } else { goto D1 };
D4:     if (head # blk) { release(blk, "D1") };
D5:     hh := bhead[blk];
D6:     tt := btail[blk]; if (hh < tt) { goto D9 } else if (tt < B) { release(blk, "EMPTY") };
D7:     nv := bnext[blk]; if (nv = None) { release(blk, "EMPTY") };
D8:     if (head = blk) { head := nv } else { goto D8q };
D8p:    freed[blk] := TRUE; release(blk, "D8q");
D8q:    release(blk, "D1");
D9:     if (bhead[blk] = hh) { bhead[blk] := hh + 1; assert absq # <<>>; want := Head(absq); absq := Tail(absq); saw := [q \in Procs |-> saw[q] \/ Claim(cur[q], absq)] } else { release(blk, "D1") };
D10:    await avail[blk][hh];
D11:    val := elem[blk][hh];
D12:    avail[blk][hh] := FALSE; assert val = want; release(blk, "DONE");
    (* ------------------------------------------- FreeList::release_ref *)
R1:     refcnt[x] := refcnt[x] - 1; assert refcnt[x] >= 0; if (refcnt[x] # 0) { goto R6 };
R2:     tp := top;
R3:     fnext[x] := tp;
R4:     if (top = tp) { top := x } else { goto R2 };
R5:     assert freed[x]; refcnt[x] := 1;
R6:     x := None; tp := None; cnt := 0;
        if (ret = "E1") { goto E1 } else if (ret = "D1") { goto D1 } else if (ret = "P6") { goto P6 }
        else if (ret = "E11") { goto E11 } else if (ret = "D8q") { goto D8q };
DN:     (* a refusal or an empty result is right if it was at some moment during the operation *)
        assert ret = "EMPTY" => saw[self]; assert ret = "FULL" => saw[self];
        cur[self] := ""; val := 0; blk := None; hh := 0; tt := 0; nb := None; u := None; nv := None; got := None; ret := ""; want := 0; saw[self] := FALSE;
    }
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "f5bddfed" /\ chksum(tla) = "523b48b")
VARIABLES pc, top, fnext, refcnt, freed, alloc, bhead, btail, bnext, elem, 
          avail, head, tail, cur, saw, absq

(* define statement *)
Claim(o, q) == IF o = "d" THEN q = <<>> ELSE o = "e" /\ Len(q) >= Slots0 - B - B * (Cardinality(Procs) - 1)

Capacity == ~Bounded \/ Len(absq) <= Slots0

VARIABLES todo, val, blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, n

vars == << pc, top, fnext, refcnt, freed, alloc, bhead, btail, bnext, elem, 
           avail, head, tail, cur, saw, absq, todo, val, blk, cnt, hh, tt, nb, 
           u, nv, got, x, ret, tp, want, n >>

ProcSet == (Procs)

Init == (* Global variables *)
        /\ top = (IF Free0 = 0 THEN None ELSE 2)
        /\ fnext = [b \in Blks |-> IF b >= 2 /\ b <= Free0 THEN b + 1 ELSE None]
        /\ refcnt = [b \in Blks |-> 1]
        /\ freed = [b \in Blks |-> b >= 2 /\ b <= Free0 + 1]
        /\ alloc = {b \in Blks : b <= Free0 + 1}
        /\ bhead = [b \in Blks |-> 0]
        /\ btail = [b \in Blks |-> 0]
        /\ bnext = [b \in Blks |-> None]
        /\ elem = [b \in Blks |-> [i \in 0..B-1 |-> 0]]
        /\ avail = [b \in Blks |-> [i \in 0..B-1 |-> FALSE]]
        /\ head = 1
        /\ tail = 1
        /\ cur = [q \in Procs |-> ""]
        /\ saw = [q \in Procs |-> FALSE]
        /\ absq = <<>>
        (* Process p *)
        /\ todo = [self \in Procs |-> Script[self]]
        /\ val = [self \in Procs |-> 0]
        /\ blk = [self \in Procs |-> None]
        /\ cnt = [self \in Procs |-> 0]
        /\ hh = [self \in Procs |-> 0]
        /\ tt = [self \in Procs |-> 0]
        /\ nb = [self \in Procs |-> None]
        /\ u = [self \in Procs |-> None]
        /\ nv = [self \in Procs |-> None]
        /\ got = [self \in Procs |-> None]
        /\ x = [self \in Procs |-> None]
        /\ ret = [self \in Procs |-> ""]
        /\ tp = [self \in Procs |-> None]
        /\ want = [self \in Procs |-> 0]
        /\ n = [self \in Procs |-> 0]
        /\ pc = [self \in ProcSet |-> "L0"]

L0(self) == /\ pc[self] = "L0"
            /\ IF todo[self] # <<>>
                  THEN /\ cur' = [cur EXCEPT ![self] = Head(todo[self])]
                       /\ todo' = [todo EXCEPT ![self] = Tail(todo[self])]
                       /\ n' = [n EXCEPT ![self] = n[self] + 1]
                       /\ saw' = [saw EXCEPT ![self] = Claim(cur'[self], absq)]
                       /\ IF cur'[self] = "e"
                             THEN /\ val' = [val EXCEPT ![self] = self * 10 + n'[self]]
                                  /\ pc' = [pc EXCEPT ![self] = "E1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "D1"]
                                  /\ val' = val
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << cur, saw, todo, val, n >>
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, absq, blk, cnt, hh, 
                            tt, nb, u, nv, got, x, ret, tp, want >>

E1(self) == /\ pc[self] = "E1"
            /\ blk' = [blk EXCEPT ![self] = tail]
            /\ pc' = [pc EXCEPT ![self] = "E2"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                            want, n >>

E2(self) == /\ pc[self] = "E2"
            /\ cnt' = [cnt EXCEPT ![self] = refcnt[blk[self]]]
            /\ IF cnt'[self] = 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "E1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "E3"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, hh, tt, nb, u, nv, got, x, ret, tp, 
                            want, n >>

E3(self) == /\ pc[self] = "E3"
            /\ IF refcnt[blk[self]] = cnt[self]
                  THEN /\ refcnt' = [refcnt EXCEPT ![blk[self]] = cnt[self] + 1]
                       /\ pc' = [pc EXCEPT ![self] = "E4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "E1"]
                       /\ UNCHANGED refcnt
            /\ UNCHANGED << top, fnext, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

E4(self) == /\ pc[self] = "E4"
            /\ IF freed[blk[self]]
                  THEN /\ x' = [x EXCEPT ![self] = blk[self]]
                       /\ ret' = [ret EXCEPT ![self] = "E1"]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "E5"]
                       /\ UNCHANGED << x, ret >>
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, nb, u, nv, got, tp, 
                            want, n >>

E5(self) == /\ pc[self] = "E5"
            /\ tt' = [tt EXCEPT ![self] = btail[blk[self]]]
            /\ IF tt'[self] < B
                  THEN /\ pc' = [pc EXCEPT ![self] = "E12"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "E6"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, nb, u, nv, got, x, ret, 
                            tp, want, n >>

E6(self) == /\ pc[self] = "E6"
            /\ IF bnext[blk[self]] # None
                  THEN /\ x' = [x EXCEPT ![self] = blk[self]]
                       /\ ret' = [ret EXCEPT ![self] = "E1"]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P1"]
                       /\ UNCHANGED << x, ret >>
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, nb, u, nv, got, tp, 
                            want, n >>

P1(self) == /\ pc[self] = "P1"
            /\ u' = [u EXCEPT ![self] = top]
            /\ IF u'[self] = None
                  THEN /\ pc' = [pc EXCEPT ![self] = "E7n"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P2"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, nb, nv, got, x, ret, 
                            tp, want, n >>

P2(self) == /\ pc[self] = "P2"
            /\ cnt' = [cnt EXCEPT ![self] = refcnt[u[self]]]
            /\ IF cnt'[self] = 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "P1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P3"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, hh, tt, nb, u, nv, got, x, ret, tp, 
                            want, n >>

P3(self) == /\ pc[self] = "P3"
            /\ IF refcnt[u[self]] = cnt[self]
                  THEN /\ refcnt' = [refcnt EXCEPT ![u[self]] = cnt[self] + 1]
                       /\ pc' = [pc EXCEPT ![self] = "P4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P1"]
                       /\ UNCHANGED refcnt
            /\ UNCHANGED << top, fnext, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

P4(self) == /\ pc[self] = "P4"
            /\ nv' = [nv EXCEPT ![self] = fnext[u[self]]]
            /\ pc' = [pc EXCEPT ![self] = "P5"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, nb, u, got, x, ret, 
                            tp, want, n >>

P5(self) == /\ pc[self] = "P5"
            /\ IF top = u[self]
                  THEN /\ top' = nv[self]
                       /\ got' = [got EXCEPT ![self] = u[self]]
                  ELSE /\ got' = [got EXCEPT ![self] = None]
                       /\ top' = top
            /\ x' = [x EXCEPT ![self] = u[self]]
            /\ ret' = [ret EXCEPT ![self] = "P6"]
            /\ pc' = [pc EXCEPT ![self] = "R1"]
            /\ UNCHANGED << fnext, refcnt, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, tp, want, n >>

P6(self) == /\ pc[self] = "P6"
            /\ IF got[self] = None
                  THEN /\ pc' = [pc EXCEPT ![self] = "P1"]
                       /\ nb' = nb
                  ELSE /\ nb' = [nb EXCEPT ![self] = got[self]]
                       /\ pc' = [pc EXCEPT ![self] = "E7"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, u, nv, got, x, ret, 
                            tp, want, n >>

E7n(self) == /\ pc[self] = "E7n"
             /\ IF Bounded
                   THEN /\ x' = [x EXCEPT ![self] = blk[self]]
                        /\ ret' = [ret EXCEPT ![self] = "FULL"]
                        /\ pc' = [pc EXCEPT ![self] = "R1"]
                        /\ UNCHANGED << alloc, nb >>
                   ELSE /\ Assert(alloc # Blks, 
                                  "Failure of assertion at line 63, column 16.")
                        /\ nb' = [nb EXCEPT ![self] = CHOOSE b \in Blks \ alloc : TRUE]
                        /\ alloc' = (alloc \cup {nb'[self]})
                        /\ pc' = [pc EXCEPT ![self] = "E7"]
                        /\ UNCHANGED << x, ret >>
             /\ UNCHANGED << top, fnext, refcnt, freed, bhead, btail, bnext, 
                             elem, avail, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, u, nv, got, tp, want, n >>

E7(self) == /\ pc[self] = "E7"
            /\ bhead' = [bhead EXCEPT ![nb[self]] = 0]
            /\ pc' = [pc EXCEPT ![self] = "E7a"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

E7a(self) == /\ pc[self] = "E7a"
             /\ btail' = [btail EXCEPT ![nb[self]] = 0]
             /\ pc' = [pc EXCEPT ![self] = "E7b"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, bnext, 
                             elem, avail, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                             want, n >>

E7b(self) == /\ pc[self] = "E7b"
             /\ bnext' = [bnext EXCEPT ![nb[self]] = None]
             /\ pc' = [pc EXCEPT ![self] = "E8"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             elem, avail, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                             want, n >>

E8(self) == /\ pc[self] = "E8"
            /\ IF bnext[blk[self]] = None
                  THEN /\ bnext' = [bnext EXCEPT ![blk[self]] = nb[self]]
                       /\ pc' = [pc EXCEPT ![self] = "E9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "E8p"]
                       /\ bnext' = bnext
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

E8p(self) == /\ pc[self] = "E8p"
             /\ freed' = [freed EXCEPT ![nb[self]] = TRUE]
             /\ x' = [x EXCEPT ![self] = nb[self]]
             /\ ret' = [ret EXCEPT ![self] = "E11"]
             /\ pc' = [pc EXCEPT ![self] = "R1"]
             /\ UNCHANGED << top, fnext, refcnt, alloc, bhead, btail, bnext, 
                             elem, avail, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, tp, want, 
                             n >>

E9(self) == /\ pc[self] = "E9"
            /\ tail' = nb[self]
            /\ pc' = [pc EXCEPT ![self] = "E10"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, cur, saw, absq, todo, 
                            val, blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                            want, n >>

E10(self) == /\ pc[self] = "E10"
             /\ freed' = [freed EXCEPT ![nb[self]] = FALSE]
             /\ pc' = [pc EXCEPT ![self] = "E11"]
             /\ UNCHANGED << top, fnext, refcnt, alloc, bhead, btail, bnext, 
                             elem, avail, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                             want, n >>

E11(self) == /\ pc[self] = "E11"
             /\ x' = [x EXCEPT ![self] = blk[self]]
             /\ ret' = [ret EXCEPT ![self] = "E1"]
             /\ pc' = [pc EXCEPT ![self] = "R1"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             bnext, elem, avail, head, tail, cur, saw, absq, 
                             todo, val, blk, cnt, hh, tt, nb, u, nv, got, tp, 
                             want, n >>

E12(self) == /\ pc[self] = "E12"
             /\ IF btail[blk[self]] = tt[self]
                   THEN /\ btail' = [btail EXCEPT ![blk[self]] = tt[self] + 1]
                        /\ absq' = Append(absq, val[self])
                        /\ saw' = [q \in Procs |-> saw[q] \/ Claim(cur[q], absq')]
                        /\ pc' = [pc EXCEPT ![self] = "E13"]
                        /\ UNCHANGED << x, ret >>
                   ELSE /\ x' = [x EXCEPT ![self] = blk[self]]
                        /\ ret' = [ret EXCEPT ![self] = "E1"]
                        /\ pc' = [pc EXCEPT ![self] = "R1"]
                        /\ UNCHANGED << btail, saw, absq >>
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, bnext, 
                             elem, avail, head, tail, cur, todo, val, blk, cnt, 
                             hh, tt, nb, u, nv, got, tp, want, n >>

E13(self) == /\ pc[self] = "E13"
             /\ Assert(~avail[blk[self]][tt[self]], 
                       "Failure of assertion at line 73, column 9.")
             /\ elem' = [elem EXCEPT ![blk[self]][tt[self]] = val[self]]
             /\ pc' = [pc EXCEPT ![self] = "E14"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             bnext, avail, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                             want, n >>

E14(self) == /\ pc[self] = "E14"
             /\ avail' = [avail EXCEPT ![blk[self]][tt[self]] = TRUE]
             /\ x' = [x EXCEPT ![self] = blk[self]]
             /\ ret' = [ret EXCEPT ![self] = "DONE"]
             /\ pc' = [pc EXCEPT ![self] = "R1"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             bnext, elem, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, tp, want, 
                             n >>

D1(self) == /\ pc[self] = "D1"
            /\ blk' = [blk EXCEPT ![self] = head]
            /\ pc' = [pc EXCEPT ![self] = "D2"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                            want, n >>

D2(self) == /\ pc[self] = "D2"
            /\ cnt' = [cnt EXCEPT ![self] = refcnt[blk[self]]]
            /\ IF cnt'[self] = 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "D1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "D3"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, hh, tt, nb, u, nv, got, x, ret, tp, 
                            want, n >>

D3(self) == /\ pc[self] = "D3"
            /\ IF refcnt[blk[self]] = cnt[self]
                  THEN /\ refcnt' = [refcnt EXCEPT ![blk[self]] = cnt[self] + 1]
                       /\ pc' = [pc EXCEPT ![self] = "D4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "D1"]
                       /\ UNCHANGED refcnt
            /\ UNCHANGED << top, fnext, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

D4(self) == /\ pc[self] = "D4"
            /\ IF head # blk[self]
                  THEN /\ x' = [x EXCEPT ![self] = blk[self]]
                       /\ ret' = [ret EXCEPT ![self] = "D1"]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "D5"]
                       /\ UNCHANGED << x, ret >>
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, nb, u, nv, got, tp, 
                            want, n >>

D5(self) == /\ pc[self] = "D5"
            /\ hh' = [hh EXCEPT ![self] = bhead[blk[self]]]
            /\ pc' = [pc EXCEPT ![self] = "D6"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, tt, nb, u, nv, got, x, ret, 
                            tp, want, n >>

D6(self) == /\ pc[self] = "D6"
            /\ tt' = [tt EXCEPT ![self] = btail[blk[self]]]
            /\ IF hh[self] < tt'[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "D9"]
                       /\ UNCHANGED << x, ret >>
                  ELSE /\ IF tt'[self] < B
                             THEN /\ x' = [x EXCEPT ![self] = blk[self]]
                                  /\ ret' = [ret EXCEPT ![self] = "EMPTY"]
                                  /\ pc' = [pc EXCEPT ![self] = "R1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "D7"]
                                  /\ UNCHANGED << x, ret >>
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, nb, u, nv, got, tp, want, 
                            n >>

D7(self) == /\ pc[self] = "D7"
            /\ nv' = [nv EXCEPT ![self] = bnext[blk[self]]]
            /\ IF nv'[self] = None
                  THEN /\ x' = [x EXCEPT ![self] = blk[self]]
                       /\ ret' = [ret EXCEPT ![self] = "EMPTY"]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "D8"]
                       /\ UNCHANGED << x, ret >>
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, nb, u, got, tp, want, 
                            n >>

D8(self) == /\ pc[self] = "D8"
            /\ IF head = blk[self]
                  THEN /\ head' = nv[self]
                       /\ pc' = [pc EXCEPT ![self] = "D8p"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "D8q"]
                       /\ head' = head
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, tail, cur, saw, absq, todo, 
                            val, blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, 
                            want, n >>

D8p(self) == /\ pc[self] = "D8p"
             /\ freed' = [freed EXCEPT ![blk[self]] = TRUE]
             /\ x' = [x EXCEPT ![self] = blk[self]]
             /\ ret' = [ret EXCEPT ![self] = "D8q"]
             /\ pc' = [pc EXCEPT ![self] = "R1"]
             /\ UNCHANGED << top, fnext, refcnt, alloc, bhead, btail, bnext, 
                             elem, avail, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, tp, want, 
                             n >>

D8q(self) == /\ pc[self] = "D8q"
             /\ x' = [x EXCEPT ![self] = blk[self]]
             /\ ret' = [ret EXCEPT ![self] = "D1"]
             /\ pc' = [pc EXCEPT ![self] = "R1"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             bnext, elem, avail, head, tail, cur, saw, absq, 
                             todo, val, blk, cnt, hh, tt, nb, u, nv, got, tp, 
                             want, n >>

D9(self) == /\ pc[self] = "D9"
            /\ IF bhead[blk[self]] = hh[self]
                  THEN /\ bhead' = [bhead EXCEPT ![blk[self]] = hh[self] + 1]
                       /\ Assert(absq # <<>>, 
                                 "Failure of assertion at line 86, column 54.")
                       /\ want' = [want EXCEPT ![self] = Head(absq)]
                       /\ absq' = Tail(absq)
                       /\ saw' = [q \in Procs |-> saw[q] \/ Claim(cur[q], absq')]
                       /\ pc' = [pc EXCEPT ![self] = "D10"]
                       /\ UNCHANGED << x, ret >>
                  ELSE /\ x' = [x EXCEPT ![self] = blk[self]]
                       /\ ret' = [ret EXCEPT ![self] = "D1"]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                       /\ UNCHANGED << bhead, saw, absq, want >>
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, btail, bnext, 
                            elem, avail, head, tail, cur, todo, val, blk, cnt, 
                            hh, tt, nb, u, nv, got, tp, n >>

D10(self) == /\ pc[self] = "D10"
             /\ avail[blk[self]][hh[self]]
             /\ pc' = [pc EXCEPT ![self] = "D11"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             bnext, elem, avail, head, tail, cur, saw, absq, 
                             todo, val, blk, cnt, hh, tt, nb, u, nv, got, x, 
                             ret, tp, want, n >>

D11(self) == /\ pc[self] = "D11"
             /\ val' = [val EXCEPT ![self] = elem[blk[self]][hh[self]]]
             /\ pc' = [pc EXCEPT ![self] = "D12"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             bnext, elem, avail, head, tail, cur, saw, absq, 
                             todo, blk, cnt, hh, tt, nb, u, nv, got, x, ret, 
                             tp, want, n >>

D12(self) == /\ pc[self] = "D12"
             /\ avail' = [avail EXCEPT ![blk[self]][hh[self]] = FALSE]
             /\ Assert(val[self] = want[self], 
                       "Failure of assertion at line 89, column 34.")
             /\ x' = [x EXCEPT ![self] = blk[self]]
             /\ ret' = [ret EXCEPT ![self] = "DONE"]
             /\ pc' = [pc EXCEPT ![self] = "R1"]
             /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                             bnext, elem, head, tail, cur, saw, absq, todo, 
                             val, blk, cnt, hh, tt, nb, u, nv, got, tp, want, 
                             n >>

R1(self) == /\ pc[self] = "R1"
            /\ refcnt' = [refcnt EXCEPT ![x[self]] = refcnt[x[self]] - 1]
            /\ Assert(refcnt'[x[self]] >= 0, 
                      "Failure of assertion at line 91, column 37.")
            /\ IF refcnt'[x[self]] # 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "R6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R2"]
            /\ UNCHANGED << top, fnext, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

R2(self) == /\ pc[self] = "R2"
            /\ tp' = [tp EXCEPT ![self] = top]
            /\ pc' = [pc EXCEPT ![self] = "R3"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, cnt, hh, tt, nb, u, nv, got, x, 
                            ret, want, n >>

R3(self) == /\ pc[self] = "R3"
            /\ fnext' = [fnext EXCEPT ![x[self]] = tp[self]]
            /\ pc' = [pc EXCEPT ![self] = "R4"]
            /\ UNCHANGED << top, refcnt, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

R4(self) == /\ pc[self] = "R4"
            /\ IF top = tp[self]
                  THEN /\ top' = x[self]
                       /\ pc' = [pc EXCEPT ![self] = "R5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R2"]
                       /\ top' = top
            /\ UNCHANGED << fnext, refcnt, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

R5(self) == /\ pc[self] = "R5"
            /\ Assert(freed[x[self]], 
                      "Failure of assertion at line 95, column 9.")
            /\ refcnt' = [refcnt EXCEPT ![x[self]] = 1]
            /\ pc' = [pc EXCEPT ![self] = "R6"]
            /\ UNCHANGED << top, fnext, freed, alloc, bhead, btail, bnext, 
                            elem, avail, head, tail, cur, saw, absq, todo, val, 
                            blk, cnt, hh, tt, nb, u, nv, got, x, ret, tp, want, 
                            n >>

R6(self) == /\ pc[self] = "R6"
            /\ x' = [x EXCEPT ![self] = None]
            /\ tp' = [tp EXCEPT ![self] = None]
            /\ cnt' = [cnt EXCEPT ![self] = 0]
            /\ IF ret[self] = "E1"
                  THEN /\ pc' = [pc EXCEPT ![self] = "E1"]
                  ELSE /\ IF ret[self] = "D1"
                             THEN /\ pc' = [pc EXCEPT ![self] = "D1"]
                             ELSE /\ IF ret[self] = "P6"
                                        THEN /\ pc' = [pc EXCEPT ![self] = "P6"]
                                        ELSE /\ IF ret[self] = "E11"
                                                   THEN /\ pc' = [pc EXCEPT ![self] = "E11"]
                                                   ELSE /\ IF ret[self] = "D8q"
                                                              THEN /\ pc' = [pc EXCEPT ![self] = "D8q"]
                                                              ELSE /\ pc' = [pc EXCEPT ![self] = "DN"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, cur, saw, absq, 
                            todo, val, blk, hh, tt, nb, u, nv, got, ret, want, 
                            n >>

DN(self) == /\ pc[self] = "DN"
            /\ Assert(ret[self] = "EMPTY" => saw[self], 
                      "Failure of assertion at line 100, column 9.")
            /\ Assert(ret[self] = "FULL" => saw[self], 
                      "Failure of assertion at line 100, column 44.")
            /\ cur' = [cur EXCEPT ![self] = ""]
            /\ val' = [val EXCEPT ![self] = 0]
            /\ blk' = [blk EXCEPT ![self] = None]
            /\ hh' = [hh EXCEPT ![self] = 0]
            /\ tt' = [tt EXCEPT ![self] = 0]
            /\ nb' = [nb EXCEPT ![self] = None]
            /\ u' = [u EXCEPT ![self] = None]
            /\ nv' = [nv EXCEPT ![self] = None]
            /\ got' = [got EXCEPT ![self] = None]
            /\ ret' = [ret EXCEPT ![self] = ""]
            /\ want' = [want EXCEPT ![self] = 0]
            /\ saw' = [saw EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "L0"]
            /\ UNCHANGED << top, fnext, refcnt, freed, alloc, bhead, btail, 
                            bnext, elem, avail, head, tail, absq, todo, cnt, x, 
                            tp, n >>

p(self) == L0(self) \/ E1(self) \/ E2(self) \/ E3(self) \/ E4(self)
              \/ E5(self) \/ E6(self) \/ P1(self) \/ P2(self) \/ P3(self)
              \/ P4(self) \/ P5(self) \/ P6(self) \/ E7n(self) \/ E7(self)
              \/ E7a(self) \/ E7b(self) \/ E8(self) \/ E8p(self)
              \/ E9(self) \/ E10(self) \/ E11(self) \/ E12(self)
              \/ E13(self) \/ E14(self) \/ D1(self) \/ D2(self) \/ D3(self)
              \/ D4(self) \/ D5(self) \/ D6(self) \/ D7(self) \/ D8(self)
              \/ D8p(self) \/ D8q(self) \/ D9(self) \/ D10(self)
              \/ D11(self) \/ D12(self) \/ R1(self) \/ R2(self) \/ R3(self)
              \/ R4(self) \/ R5(self) \/ R6(self) \/ DN(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Procs: p(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
=============================================================================
