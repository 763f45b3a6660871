-------------------------------- MODULE Peers --------------------------------
(***************************************************************************)
(* Design of the peer-to-peer network (PeerNetwork in network.h) for two   *)
(* nets which know each other: registration, dialling with retries, the    *)
(* handshake in which both sides choose one of two simultaneous            *)
(* connections by their nonces, preemption by a newer inbound connection,  *)
(* loss of connections, and the hand-over of unsent messages.              *)
(*                                                                         *)
(* Every net has a dispatcher (its queue of tasks: dq), a user loop (queue *)
(* of callbacks: uq) and a worker (which establishes, reads, writes and    *)
(* ends connections).  The tasks are those of the implementation.          *)
(* A script of API calls, losses and messages is run by the user; its      *)
(* steps interleave with everything else.  Composed with PeerObs (P09,     *)
(* P10, P11, P13, P14, P20).                                               *)
(***************************************************************************)
EXTENDS PeerObs
CONSTANTS MaxC,     \* connections which may be made
          Nonces,   \* what a side may draw
          Scripts,  \* what the users may do
          Early     \* how many retries may happen before everything else has come to rest
P == 9              \* the nonce of a side which does not dial
Nets == {1, 2}
Other(n) == 3 - n
VARIABLES s, script, early, now, sent, aid, obs, viol
vars == <<s, script, early, now, sent, aid, obs, viol>>

NoPeer == [reg |-> FALSE, adr |-> FALSE, non |-> P, conn |-> 0, inb |-> 0, out |-> 0, pre |-> 0, st |-> "D", cur |-> 0, nt |-> 0, rt |-> "no", hold |-> <<>>]
Fresh(n) == [a |-> n, st |-> [x \in Nets |-> IF x = n THEN "dial" ELSE "off"], pp |-> [x \in Nets |-> FALSE], tq |-> [x \in Nets |-> FALSE],
             ch |-> [x \in Nets |-> <<>>], sb |-> [x \in Nets |-> <<>>]]
H(c, n) == 2 * c + n - 2
RECURSIVE Fold(_, _, _, _)
Fold(o, v, es, i) == IF i > Len(es) THEN <<o, v>> ELSE Fold(Upd(o, es[i]), v \cup Viol(o, es[i]), es, i + 1)
Emit(es) == LET r == Fold(obs, viol, es, 1) IN obs' = r[1] /\ viol' = r[2]
Silent == UNCHANGED <<obs, viol>>
NetEv(n) == [ev |-> "net", net |-> n, port |-> 7000 + n, ctms |-> 3000, pingms |-> 500, ctoms |-> 300, sbuf |-> 0, blk |-> 1, tls |-> FALSE, ms |-> 0]
Setup == [n \in 1..2 |-> NetEv(n)] \o [n \in 1..2 |-> [ev |-> "listen", net |-> n, port |-> 7000 + n, code |-> 0, ms |-> 0]]
         \o <<[ev |-> "stream", s |-> 1, net |-> 1, dst |-> 2, thr |-> FALSE]>>

(***************************************************************************)
(* Tasks of the dispatcher, as functions of the state; k is what a random  *)
(* nonce would be if one is drawn                                          *)
(***************************************************************************)
Task(t, n, x) == [t EXCEPT !.dq[n] = Append(@, x)]
Call(t, n, x) == [t EXCEPT !.uq[n] = Append(@, x)]
Ended(t, n, c) == t.c[c].st[n] \in {"term", "gone"}
Term(t, n, c) == IF c = 0 THEN t
                 ELSE IF t.c[c].st[n] = "dial" THEN Task(t, n, <<"dt", c>>)
                 ELSE IF Ended(t, n, c) THEN t ELSE [t EXCEPT !.c[c].tq[n] = TRUE]
Unlink(t, n, c) == IF c = 0 THEN t ELSE [t EXCEPT !.c[c].pp[n] = FALSE]
Draw(t, n, k) == IF t.p[n].non = 0 THEN [t EXCEPT !.p[n].non = k] ELSE t
Put2(t, n, c, m) == [t EXCEPT !.c[c].sb[n] = Append(@, m)]

Dial(t, n) == IF ~t.p[n].adr THEN t ELSE
    LET c == Len(t.c) + 1
        o == t.p[n].out
        t1 == [t EXCEPT !.c = Append(@, [Fresh(n) EXCEPT !.pp[n] = TRUE])]
    IN  [Term(Unlink(t1, n, o), n, o) EXCEPT !.p[n].out = c]
Retry(t, n) == LET t1 == [t EXCEPT !.p[n].cur = IF @ > 0 THEN @ - 1 ELSE @, !.p[n].non = IF @ = P THEN 0 ELSE @]
                   t2 == Dial(t1, n)
               IN  [t2 EXCEPT !.p[n].rt = IF t2.p[n].cur # 0 THEN "late" ELSE "no"]
SetUp(t, n, c, k) ==
    LET t1 == IF t.c[c].st[n] = "set" THEN [t EXCEPT !.c[c].st[n] = "cb"] ELSE t
    IN  IF t.c[c].a # n THEN Call(t1, n, <<"conn", c, TRUE>>)
        ELSE IF ~t.p[n].reg THEN Call(Term(t1, n, c), n, <<"err", -1, 8>>)
        ELSE LET t2 == Draw(t1, n, k) IN Call(Put2(t2, n, c, <<"ping", t2.p[n].non>>), n, <<"conn", c, TRUE>>)
Down(t0, n, c) ==
    LET t == Call([t0 EXCEPT !.c[c].st[n] = "gone", !.c[c].tq[n] = FALSE, !.c[c].pp[n] = FALSE], n, <<"conn", c, FALSE>>)
        q == t.p[n]
    IN  IF ~t0.c[c].pp[n] THEN t ELSE
        LET t1 == IF q.st = "D" THEN t
                  ELSE [t EXCEPT !.p[n].cur = IF q.st = "C" /\ @ > 0 THEN @ - 1 ELSE @, !.p[n].st = "D", !.p[n].out = 0,
                                 !.bad = @ \/ q.conn # c]
            more == t1.p[n].cur # 0
        IN  IF q.pre # 0
            THEN [Call(t1, n, <<"pre", c, q.pre, q.inb>>) EXCEPT !.p[n].pre = 0, !.p[n].inb = 0, !.p[n].rt = IF more THEN "late" ELSE @]
            ELSE [Call(t1, n, <<"peer", c, FALSE>>) EXCEPT !.p[n].inb = 0, !.p[n].non = IF more THEN 0 ELSE P, !.p[n].rt = IF more THEN "late" ELSE @]
Finish(t, n, c) ==
    LET o == t.p[n].out
        old == t.p[n].conn
        t1 == [Unlink(t, n, o) EXCEPT !.p[n].inb = 0, !.p[n].out = 0, !.p[n].st = "C", !.p[n].rt = "no", !.p[n].cur = t.p[n].nt]
        t2 == IF old = 0 THEN [t1 EXCEPT !.c[c].sb[n] = @ \o t1.p[n].hold, !.p[n].hold = <<>>]
              ELSE [Unlink(t1, n, old) EXCEPT !.c[c].sb[n] = @ \o t1.c[old].sb[n], !.c[old].sb[n] = <<>>, !.bad = @ \/ ~Ended(t1, n, old)]
    IN  Call([t2 EXCEPT !.p[n].conn = c, !.c[c].pp[n] = TRUE], n, <<"peer", c, TRUE>>)
Ping(t, n, c, m, k) ==
    IF Ended(t, n, c) \/ t.c[c].a = n THEN t
    ELSE IF ~t.p[n].reg THEN Term(Call(t, n, <<"unk">>), n, c)
    ELSE IF t.p[n].st = "C" THEN Term([t EXCEPT !.p[n].pre = m, !.p[n].inb = c, !.p[n].non = P], n, t.p[n].conn)
    ELSE IF t.p[n].st # "D" THEN t
    ELSE LET t1 == Draw(t, n, k)
             t2 == Put2(t1, n, c, <<"pong", t1.p[n].non>>)
             t3 == [IF t.p[n].inb # c THEN Term(t2, n, t.p[n].inb) ELSE t2 EXCEPT !.p[n].inb = c]
         IN  IF m < t1.p[n].non \/ ~t.p[n].adr THEN Finish(t3, n, c) ELSE Term(t3, n, c)
Pong(t, n, c, m, k) ==
    IF Ended(t, n, c) \/ t.c[c].a # n THEN t
    ELSE IF ~t.p[n].reg \/ ~t.p[n].adr THEN Term(t, n, c)
    ELSE IF t.p[n].st # "D" THEN t
    ELSE LET o == t.p[n].out
             t1 == IF o # c THEN Term(Unlink(t, n, o), n, o) ELSE t
             t2 == Draw([t1 EXCEPT !.p[n].out = c], n, k)
         IN  IF t2.p[n].non < m THEN Finish(t2, n, c) ELSE Term(t2, n, c)
ConnPeer(t, n, nt, id) ==
    IF ~t.p[n].reg THEN Call(t, n, <<"err", id, NotExist>>)
    ELSE IF ~t.p[n].adr THEN Call(t, n, <<"err", id, NotReady>>)
    ELSE LET o == t.p[n].out
             t1 == [Term(Unlink(t, n, o), n, o) EXCEPT !.p[n].nt = nt, !.p[n].cur = nt, !.p[n].out = 0, !.p[n].non = IF nt # 0 THEN 0 ELSE P, !.p[n].rt = "no"]
         IN  IF t.p[n].st = "D" /\ nt # 0 THEN [t1 EXCEPT !.p[n].rt = "now"]
             ELSE IF t.p[n].st = "C" THEN Term([t1 EXCEPT !.p[n].st = "R"], n, t.p[n].conn)
             ELSE t1
Add(t, n, id) == IF t.p[n].reg THEN Call(t, n, <<"err", id, AlreadyExists>>) ELSE [t EXCEPT !.p[n] = [NoPeer EXCEPT !.reg = TRUE]]
Remove(t, n, id) == IF ~t.p[n].reg THEN Call(t, n, <<"err", id, NotExist>>) ELSE
    LET q == t.p[n]
        t1 == Term(Term(Term(Unlink(t, n, q.conn), n, q.conn), n, q.inb), n, q.out)
    IN  [Unlink(Unlink(t1, n, q.inb), n, q.out) EXCEPT !.p[n] = NoPeer]
SetAddr(t, n, id) == IF ~t.p[n].reg THEN Call(t, n, <<"err", id, NotExist>>) ELSE [t EXCEPT !.p[n].adr = TRUE]

Run(t, n, x, k) ==
    CASE x[1] = "setup" -> SetUp(t, n, x[2], k)
      [] x[1] = "down" -> Down(t, n, x[2])
      [] x[1] = "dt" -> IF t.c[x[2]].st[n] = "dial" THEN Down(t, n, x[2]) ELSE Term(t, n, x[2])
      [] x[1] = "ping" -> Ping(t, n, x[2], x[3], k)
      [] x[1] = "pong" -> Pong(t, n, x[2], x[3], k)
      [] x[1] = "connpeer" -> ConnPeer(t, n, x[2], x[3])
      [] x[1] = "addpeer" -> Add(t, n, x[2])
      [] x[1] = "delpeer" -> Remove(t, n, x[2])
      [] x[1] = "setaddr" -> SetAddr(t, n, x[2])

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
Init == /\ s = [p |-> [n \in Nets |-> NoPeer], c |-> <<>>, dq |-> [n \in Nets |-> <<>>], uq |-> [n \in Nets |-> <<>>], bad |-> FALSE]
        /\ script \in Scripts /\ early = Early /\ now = 0 /\ sent = 0 /\ aid = 0
        /\ obs = Fold(Init0, {}, Setup, 1)[1] /\ viol = {}
Same == UNCHANGED <<script, early, now, sent, aid>>
Dispatch(n) == /\ s.dq[n] # <<>>
               /\ \E k \in Nonces : s' = Run([s EXCEPT !.dq[n] = Tail(@)], n, Head(s.dq[n]), k)
               /\ Silent /\ Same
ConnEv(n, c, up) == [ev |-> "conn", net |-> n, pk |-> Other(n), c |-> H(c, n), uid |-> c, act |-> s.c[c].a = n, up |-> up, on |-> TRUE, ms |-> now]
PeerEv(n, c, up) == [ev |-> "peer", net |-> n, pk |-> Other(n), c |-> H(c, n), act |-> s.c[c].a = n, up |-> up, on |-> TRUE, ms |-> now]
User(n) == /\ s.uq[n] # <<>>
           /\ LET x == Head(s.uq[n])
                  t == [s EXCEPT !.uq[n] = Tail(@)]
              IN  CASE x[1] = "conn" -> /\ s' = IF x[3] /\ t.c[x[2]].st[n] = "cb" THEN [t EXCEPT !.c[x[2]].st[n] = "on"] ELSE t
                                        /\ Emit(<<ConnEv(n, x[2], x[3])>>)
                    [] x[1] = "peer" -> s' = t /\ Emit(<<PeerEv(n, x[2], x[3])>>)
                    [] x[1] = "pre" -> s' = Task(t, n, <<"ping", x[4], x[3]>>) /\ Emit(<<PeerEv(n, x[2], FALSE)>>)
                    [] x[1] = "unk" -> s' = t /\ Emit(<<[ev |-> "unk", net |-> n, port |-> 7000 + Other(n), on |-> TRUE]>>)
                    [] x[1] = "err" -> s' = t /\ Emit(<<[ev |-> "err", net |-> n, aid |-> x[2], code |-> x[3], fatal |-> FALSE, on |-> TRUE]>>)
           /\ Same
Conns == 1..Len(s.c)
(* the kernel accepts, then both sides learn of it *)
Syn(c) == LET b == Other(s.c[c].a) IN s.c[c].st[b] = "off" /\ s.c[c].st[3 - b] = "dial" /\ s' = [s EXCEPT !.c[c].st[b] = "acc"] /\ Silent /\ Same
Est(c, n) == /\ \/ s.c[c].a = n /\ s.c[c].st[n] = "dial" /\ s.c[c].st[Other(n)] # "off"
                \/ s.c[c].st[n] = "acc"
             /\ s' = Task([s EXCEPT !.c[c].st[n] = "set"], n, <<"setup", c>>) /\ Silent /\ Same
Write(c, n) == /\ s.c[c].st[n] = "on" /\ s.c[c].sb[n] # <<>> /\ ~Ended(s, Other(n), c)
               /\ s' = [s EXCEPT !.c[c].sb[n] = Tail(@), !.c[c].ch[Other(n)] = Append(@, Head(s.c[c].sb[n]))]
               /\ LET x == Head(s.c[c].sb[n]) IN IF x[1] = "data" THEN Emit(<<[ev |-> "wrote", s |-> 1, uid |-> c, i |-> x[2], n |-> 1]>>) ELSE Silent
               /\ Same
Read(c, n) == /\ s.c[c].st[n] = "on" /\ s.c[c].ch[n] # <<>>
              /\ LET x == Head(s.c[c].ch[n])
                     t == [s EXCEPT !.c[c].ch[n] = Tail(@)]
                 IN  IF x[1] = "data"
                     THEN s' = t /\ Emit(<<[ev |-> "recv", net |-> n, c |-> H(c, n), s |-> 1, ok |-> TRUE, i |-> x[2], n |-> 1, a |-> 1, raw |-> 0, on |-> TRUE]>>)
                     ELSE s' = Task(t, n, <<x[1], c, x[2]>>) /\ Silent
              /\ Same
(* the other end is gone: what it sent last may be lost with it *)
Eof(c, n) == /\ s.c[c].st[n] = "on" /\ ~s.c[c].tq[n] /\ s.c[c].st[Other(n)] = "gone"
             /\ s' = [s EXCEPT !.c[c].tq[n] = TRUE] /\ Silent /\ Same
End(c, n) == /\ s.c[c].tq[n] /\ s.c[c].st[n] \in {"set", "cb", "on"}
             /\ s' = Task([s EXCEPT !.c[c].st[n] = "term", !.c[c].tq[n] = FALSE], n, <<"down", c>>) /\ Silent /\ Same
Fire(n) == /\ s.p[n].rt # "no" /\ Len(s.c) < MaxC /\ s' = Retry(s, n) /\ Silent

Api(n, op, arg2) == <<[ev |-> "apic", net |-> n, op |-> op, arg |-> Other(n), arg2 |-> arg2, delay |-> 100, ms |-> now], [ev |-> "api", net |-> n, op |-> op, aid |-> aid, ms |-> now]>>
Do == /\ script # <<>> /\ script' = Tail(script)
      /\ LET x == Head(script)
             n == x[2]
         IN  CASE x[1] \in {"addpeer", "delpeer"} -> s' = Task(s, n, <<x[1], aid>>) /\ Emit(Api(n, x[1], 0)) /\ aid' = aid + 1 /\ UNCHANGED sent
               [] x[1] = "setaddr" -> s' = Task(s, n, <<x[1], aid>>) /\ Emit(Api(n, x[1], 7000 + Other(n))) /\ aid' = aid + 1 /\ UNCHANGED sent
               [] x[1] = "connpeer" -> s' = Task(s, n, <<x[1], x[3], aid>>) /\ Emit(Api(n, x[1], x[3])) /\ aid' = aid + 1 /\ UNCHANGED sent
               [] x[1] = "cut" -> /\ \E c \in Conns : s.c[c].st[n] = "on" /\ s' = [s EXCEPT !.c[c].tq[n] = TRUE]
                                  /\ Emit(<<[ev |-> "cut", uid |-> 0, how |-> 2, ms |-> now]>>) /\ UNCHANGED <<sent, aid>>
               [] x[1] = "send" -> /\ s.p[n].reg
                                   /\ s' = IF s.p[n].conn = 0 THEN [s EXCEPT !.p[n].hold = Append(@, <<"data", sent + 1>>)] ELSE Put2(s, n, s.p[n].conn, <<"data", sent + 1>>)
                                   /\ Emit(<<[ev |-> "sendc", s |-> 1, upto |-> sent + 1], [ev |-> "send", s |-> 1, net |-> n, ok |-> TRUE, code |-> 0, i |-> sent + 1, n |-> 1]>>)
                                   /\ sent' = sent + 1 /\ UNCHANGED aid
      /\ UNCHANGED <<early, now>>
Fast == \/ \E n \in Nets : Dispatch(n) \/ User(n)
        \/ \E c \in Conns : Syn(c) \/ \E n \in Nets : Est(c, n) \/ Write(c, n) \/ Read(c, n) \/ Eof(c, n) \/ End(c, n)
        \/ \E n \in Nets : s.p[n].rt = "now" /\ Fire(n) /\ Same
Rest == ~ENABLED Fast
IsQuiet(x) == x[1] \in {"quiet", "settle"}
Late == \E n \in Nets : /\ s.p[n].rt = "late" /\ Fire(n)
                        /\ \/ Rest /\ UNCHANGED early
                           \/ early > 0 /\ early' = early - 1
                        /\ UNCHANGED <<script, now, sent, aid>>
Quiet == /\ Rest /\ script # <<>> /\ IsQuiet(Head(script)) /\ script' = Tail(script)
         /\ IF Head(script)[1] = "settle" THEN now' = now /\ Emit(<<[ev |-> "settled"]>>)
            ELSE /\ \A n \in Nets : s.p[n].rt = "no"
                 /\ now' = now + 100000 /\ Emit(<<[ev |-> "settled"], [ev |-> "quiet", ms |-> now + 100000]>>)
         /\ UNCHANGED <<s, early, sent, aid>>
Next == Fast \/ Late \/ (script # <<>> /\ ~IsQuiet(Head(script)) /\ Do) \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoViol == viol = {}
Sane == ~s.bad
(* reached whenever the connections which may be made suffice *)
Settles == <>(script = <<>> \/ Len(s.c) = MaxC)
=============================================================================
