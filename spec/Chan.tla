-------------------------------- MODULE Chan --------------------------------
(***************************************************************************)
(* Design of the data path of one connection (conn.cpp, network.h):        *)
(*                                                                         *)
(*   send_msg -> bounded send queue -> partial writes -> byte stream ->    *)
(*   limited receive buffer -> parser -> bounded message queue -> handler  *)
(*                                                                         *)
(* with the two back-pressure mechanisms: a full message queue puts the    *)
(* connection to sleep, its parsed message in hand, until a retry timer    *)
(* finds room; a full receive buffer masks READ.  A message is U units     *)
(* of the byte stream.  Composed with MsgObs (P01, P03, P04).              *)
(***************************************************************************)
EXTENDS MsgObs
CONSTANTS Senders,  \* threads sending on the connection
          NMsg, U, SBuf, Blk, KCap, RCap, QCapN,
          Pauses,   \* how often the user loop may be held up
          Attempts  \* how often a refused message is tried
VARIABLES idx, att, spc, sq, kern, rb, hand, sleep, inq, paused, left, obs, viol
vars == <<idx, att, spc, sq, kern, rb, hand, sleep, inq, paused, left, obs, viol>>
RECURSIVE Fold(_, _, _)
Fold(st, es, i) == IF i > Len(es) THEN st ELSE Fold(Upd(st, es[i]), es, i + 1)
NetEv(n) == [ev |-> "net", net |-> n, kind |-> "msg", tls |-> FALSE, cert |-> 0, sbuf |-> SBuf, qsize |-> QCapN, rbuf |-> RCap, chunk |-> 1, blk |-> Blk, port |-> 7000 + n, mismatch |-> FALSE, ctoms |-> 1000]
ConnEv(n) == [ev |-> "conn", net |-> n, c |-> n, up |-> TRUE, uid |-> 1, on |-> TRUE, act |-> n = 1, ret |-> TRUE, cert |-> 0, rn |-> 3 - n, rr |-> 0, rt |-> -1, port |-> 7002]
StrEv(s) == [ev |-> "stream", s |-> s, net |-> 1, c |-> 1, raw |-> 0, dst |-> 0, slack |-> KCap]
Setup == <<NetEv(1), NetEv(2), ConnEv(1), [ev |-> "connend", c |-> 1, up |-> TRUE, net |-> 1], ConnEv(2), [ev |-> "connend", c |-> 2, up |-> TRUE, net |-> 2]>>
         \o [s \in 1..Cardinality(Senders) |-> StrEv(s)]
Emit(e) == obs' = Upd(obs, e) /\ viol' = viol \cup Viol(obs, e)
Silent == UNCHANGED <<obs, viol>>
Init == /\ idx = [s \in Senders |-> 0] /\ att = [s \in Senders |-> 1] /\ spc = [s \in Senders |-> "idle"]
        /\ sq = <<>> /\ kern = <<>> /\ rb = <<>> /\ hand = <<>> /\ sleep = FALSE /\ inq = <<>> /\ paused = FALSE /\ left = Pauses
        /\ obs = Fold(Init0, Setup, 1) /\ viol = {}
snd == <<idx, att, spc, sq>>
rcv == <<rb, hand, sleep, inq>>
Call(s) == /\ spc[s] = "idle" /\ idx[s] < NMsg /\ spc' = [spc EXCEPT ![s] = "enq"] /\ idx' = [idx EXCEPT ![s] = @ + 1] /\ att' = [att EXCEPT ![s] = 1]
           /\ Emit([ev |-> "sendc", s |-> s, upto |-> idx[s] + 1]) /\ UNCHANGED <<sq, kern, rcv, paused, left>>
(* the queue may refuse as soon as the configured blocks are in use, those included which other senders hold for a *)
(* moment, and must when all blocks are                                                                            *)
Enq(s) == /\ spc[s] = "enq"
          /\ \/ /\ SBuf = 0 \/ Len(sq) < QCap(SBuf, Blk)
                /\ sq' = Append(sq, [m |-> <<s, idx[s], att[s]>>, k |-> 1]) /\ spc' = [spc EXCEPT ![s] = "ok"]
             \/ /\ SBuf > 0 /\ Len(sq) >= QMin(SBuf, Blk) - Blk * Cardinality({x \in Senders \ {s} : spc[x] = "enq"})
                /\ UNCHANGED sq /\ spc' = [spc EXCEPT ![s] = "refused"]
          /\ Silent /\ UNCHANGED <<idx, att, kern, rcv, paused, left>>
Report(s) == /\ spc[s] \in {"ok", "refused"}
             /\ Emit([ev |-> "send", s |-> s, ok |-> spc[s] = "ok", code |-> 0, net |-> 1, i |-> idx[s], n |-> 1])
             /\ IF spc[s] = "ok" THEN spc' = [spc EXCEPT ![s] = "idle"] /\ UNCHANGED <<att, idx>>
                ELSE IF att[s] < Attempts THEN spc' = [spc EXCEPT ![s] = "enq"] /\ att' = [att EXCEPT ![s] = @ + 1] /\ UNCHANGED idx
                ELSE spc' = [spc EXCEPT ![s] = "gaveup"] /\ UNCHANGED <<att, idx>>
             /\ UNCHANGED <<sq, kern, rcv, paused, left>>
(* the sending worker: as many units of the first segment as the kernel takes; the rest goes back in front *)
Write == /\ sq # <<>> /\ Len(kern) < KCap
         /\ \E n \in 1..U : LET h == Head(sq) IN
              /\ n <= KCap - Len(kern) /\ h.k + n - 1 <= U
              /\ kern' = kern \o [j \in 1..n |-> <<h.m, h.k + j - 1>>]
              /\ sq' = IF h.k + n - 1 = U THEN Tail(sq) ELSE <<[h EXCEPT !.k = @ + n]>> \o Tail(sq)
         /\ Silent /\ UNCHANGED <<idx, att, spc, rcv, paused, left>>
(* the receiving worker: read, unless asleep or the buffer is full; then parse what is complete *)
RECURSIVE Parse(_)
Parse(x) == IF x.sleep \/ Len(x.rb) < U THEN x
            ELSE LET m == [j \in 1..U |-> x.rb[j]]
                     y == [x EXCEPT !.rb = SubSeq(@, U + 1, Len(@))]
                 IN  IF Len(x.inq) < QCapN THEN Parse([y EXCEPT !.inq = Append(@, m)])
                     ELSE [y EXCEPT !.sleep = TRUE, !.hand = m]
SetR(x) == rb' = x.rb /\ hand' = x.hand /\ sleep' = x.sleep /\ inq' = x.inq
Now == [rb |-> rb, hand |-> hand, sleep |-> sleep, inq |-> inq]
Read == /\ kern # <<>> /\ ~sleep /\ Len(rb) < RCap
        /\ \E n \in 1..(RCap - Len(rb)) : /\ n <= Len(kern)
              /\ kern' = SubSeq(kern, n + 1, Len(kern))
              /\ SetR(Parse([Now EXCEPT !.rb = @ \o SubSeq(kern, 1, n)]))
        /\ Silent /\ UNCHANGED <<snd, paused, left>>
(* while asleep the socket is still read into the buffer until that is full *)
ReadAsleep == /\ kern # <<>> /\ sleep /\ Len(rb) < RCap
              /\ rb' = Append(rb, Head(kern)) /\ kern' = Tail(kern) /\ Silent /\ UNCHANGED <<snd, hand, sleep, inq, paused, left>>
Retry == /\ sleep /\ Len(inq) < QCapN
         /\ SetR(Parse([rb |-> rb, hand |-> <<>>, sleep |-> FALSE, inq |-> Append(inq, hand)]))
         /\ Silent /\ UNCHANGED <<snd, kern, paused, left>>
Whole(m) == \A j \in 1..U : m[j] = <<m[1][1], j>>
Handle == /\ ~paused /\ inq # <<>> /\ inq' = Tail(inq)
          /\ LET m == Head(inq) IN
             Emit([ev |-> "recv", net |-> 2, c |-> 2, s |-> IF Whole(m) THEN m[1][1][1] ELSE 0, ok |-> Whole(m), i |-> m[1][1][2], n |-> 1, a |-> m[1][1][3], raw |-> 0, on |-> TRUE])
          /\ UNCHANGED <<snd, kern, rb, hand, sleep, paused, left>>
Pause == /\ ~paused /\ left > 0 /\ paused' = TRUE /\ left' = left - 1 /\ Emit([ev |-> "pause", net |-> 2]) /\ UNCHANGED <<snd, kern, rcv>>
Resume == /\ paused /\ paused' = FALSE /\ Emit([ev |-> "resume", net |-> 2]) /\ UNCHANGED <<snd, kern, rcv, left>>
Step == (\E s \in Senders : Call(s) \/ Enq(s) \/ Report(s)) \/ Write \/ Read \/ ReadAsleep \/ Retry \/ Handle \/ Resume
Rest == ~ENABLED Step
Quiet == Rest /\ Emit([ev |-> "quiet", socks |-> 2, conns |-> 2, fds |-> 0, badclose |-> 0, handles |-> 0, ms |-> 0]) /\ UNCHANGED <<snd, kern, rcv, paused, left>>
Next == Step \/ Pause \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
NoViol == viol = {}
(* what a paused receiver has taken from the connection *)
Bounded == Len(rb) <= RCap /\ Len(inq) <= QCapN /\ Len(hand) <= U /\ (SBuf > 0 => Len(sq) <= QCap(SBuf, Blk))
AllDone == <>[](kern = <<>> /\ sq = <<>> /\ inq = <<>> /\ ~sleep /\ rb = <<>>)
=============================================================================
