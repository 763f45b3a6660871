------------------------------ MODULE ConnLife -------------------------------
(***************************************************************************)
(* Design of the life of connections (ConnPool in conn.h, conn.cpp): one   *)
(* net whose dispatcher dials, accepts and releases connections, a worker  *)
(* which serves them and the user loop which is told.  dq, wq and uq are   *)
(* the thread-call queues of the three.  A connection may be ended at any  *)
(* moment by the user, the remote, the timeout of an attempt or a stop, by *)
(* several of them at once; "term" is the flag which lets one of them win. *)
(* Composed with MsgObs (P05, P06, P08, P21).                              *)
(***************************************************************************)
EXTENDS MsgObs
CONSTANTS MaxC,     \* connections
          Kinds,    \* where the user dials: ok, no (refused), hole (silent), unreach (fails at once)
          Terms,    \* how many connections the user ends
          Faults,   \* how often socket() may fail
          Stops     \* may the net be stopped and destroyed
VARIABLES c, dq, wq, uq, nf, ph, obs, viol
vars == <<c, dq, wq, uq, nf, ph, obs, viol>>
RECURSIVE Fold(_, _, _, _)
Fold(o, v, es, i) == IF i > Len(es) THEN <<o, v>> ELSE Fold(Upd(o, es[i]), v \cup Viol(o, es[i]), es, i + 1)
Emit(es) == LET r == Fold(obs, viol, es, 1) IN obs' = r[1] /\ viol' = r[2]
Silent == UNCHANGED <<obs, viol>>
Port(k) == CASE k = "ok" -> 9001 [] k = "no" -> 9002 [] k = "hole" -> 9003 [] k = "unreach" -> 9004 [] OTHER -> 0
NetEv == [ev |-> "net", net |-> 1, kind |-> "msg", tls |-> FALSE, cert |-> 0, sbuf |-> 0, qsize |-> 0, rbuf |-> 0, chunk |-> 1, blk |-> 1, port |-> 7001, mismatch |-> FALSE, ctoms |-> 1000]
Setup == <<NetEv, [ev |-> "listen", net |-> 1, code |-> 0, port |-> 7001], [ev |-> "rawlisten", on |-> TRUE, port |-> 9001],
           [ev |-> "portmode", port |-> 9003, mode |-> 1], [ev |-> "portmode", port |-> 9004, mode |-> 2]>>
Init == /\ c = <<>> /\ dq = <<>> /\ wq = <<>> /\ uq = <<>> /\ nf = Faults /\ ph = "run"
        /\ LET r == Fold(Init0, {}, Setup, 1) IN obs = r[1] /\ viol = r[2]

New(k) == [k |-> k, fd |-> 0,       \* 0: none yet, 1: open, 2: closed, 3: closed twice
           wait |-> FALSE,          \* an attempt is under way
           wk |-> FALSE,            \* handed over to the worker
           rd |-> FALSE, eof |-> FALSE, term |-> FALSE, handle |-> FALSE, rclosed |-> FALSE, asked |-> FALSE]
Ids == 1..Len(c)
ConnEv(i, up) == [ev |-> "conn", net |-> 1, c |-> i, up |-> up, uid |-> IF c[i].k \in {"ok", "in"} THEN i ELSE -1, on |-> TRUE, act |-> c[i].k # "in",
                  ret |-> TRUE, cert |-> 0, rn |-> 0, rr |-> i, rt |-> -1, port |-> Port(c[i].k)]
DT(d, w, i, wk) == IF wk THEN <<d, Append(w, <<"wt", i>>)>> ELSE <<Append(d, <<"dt2", i>>), w>>
Close(i) == [c EXCEPT ![i].fd = @ + 1, ![i].term = TRUE, ![i].wait = FALSE]

(* ---- the user: requests from the loop's thread, and its loop *)
Connect == /\ ph = "run" /\ Len(c) < MaxC /\ \E k \in Kinds :
             LET i == Len(c) + 1 IN
             /\ c' = Append(c, New(k)) /\ dq' = Append(dq, <<"connect", i>>)
             /\ Emit(<<[ev |-> "connectc", net |-> 1, port |-> Port(k), ms |-> 0], [ev |-> "api", op |-> "connect", net |-> 1, aid |-> i]>>)
             /\ UNCHANGED <<wq, uq, nf, ph>>
(* (a synchronous connect returns its handle as soon as the attempt has begun) *)
Terminate == /\ ph = "run" /\ \E i \in Ids : /\ c[i].handle \/ (c[i].k # "in" /\ c[i].fd > 0)
                 /\ ~c[i].asked /\ Cardinality({x \in Ids : c[x].asked}) < Terms
                 /\ c' = [c EXCEPT ![i].asked = TRUE] /\ dq' = Append(dq, <<"dt", i>>)
                 /\ Emit(<<[ev |-> "term", c |-> i, uid |-> IF Has(obs.raw, i) THEN i ELSE -1]>>)
                 /\ UNCHANGED <<wq, uq, nf, ph>>
UserLoop == /\ uq # <<>> /\ ph # "gone" /\ uq' = Tail(uq) /\ LET t == Head(uq) IN
                /\ IF t[1] = "err" THEN Emit(<<[ev |-> "err", net |-> 1, aid |-> t[2], on |-> TRUE, fatal |-> FALSE, code |-> 4]>>) /\ UNCHANGED <<c, wq>>
                   ELSE /\ Emit(<<ConnEv(t[2], t[3]), [ev |-> "connend", c |-> t[2], up |-> t[3], net |-> 1]>>)
                        /\ IF t[3] THEN c' = [c EXCEPT ![t[2]].handle = TRUE] /\ wq' = IF ph = "run" THEN Append(wq, <<"arm", t[2]>>) ELSE wq ELSE UNCHANGED <<c, wq>>
                /\ UNCHANGED <<dq, nf, ph>>
(* ---- the dispatcher *)
Disp == /\ ph = "run" /\ dq # <<>> /\ LET t == Head(dq)
                                              i == t[2]
                                              q == Tail(dq)
            IN
            \/ /\ t[1] = "connect" /\ nf > 0 /\ nf' = nf - 1 /\ uq' = Append(uq, <<"err", i>>) /\ dq' = q /\ Silent /\ UNCHANGED <<c, wq, ph>>
            \/ /\ t[1] = "connect" /\ c' = [c EXCEPT ![i].fd = 1, ![i].wait = c[i].k # "unreach"]
               /\ dq' = IF c[i].k = "unreach" THEN Append(q, <<"dt2", i>>) ELSE q
               /\ Silent /\ UNCHANGED <<wq, uq, nf, ph>>
            \/ /\ t[1] = "dt" /\ LET r == DT(q, wq, i, c[i].wk) IN dq' = r[1] /\ wq' = r[2]
               /\ Silent /\ UNCHANGED <<c, uq, nf, ph>>
            \/ /\ t[1] = "dt2" /\ dq' = q /\ Silent /\ UNCHANGED <<nf, ph>>
               /\ IF c[i].wk THEN wq' = Append(wq, <<"wt", i>>) /\ UNCHANGED <<c, uq>>
                  ELSE IF c[i].term THEN UNCHANGED <<c, wq, uq>>
                  ELSE c' = Close(i) /\ uq' = Append(uq, <<"conn", i, FALSE>>) /\ UNCHANGED wq
            \/ /\ t[1] = "setup" /\ dq' = q /\ uq' = Append(uq, <<"conn", i, TRUE>>) /\ Silent /\ UNCHANGED <<c, wq, nf, ph>>
            \/ /\ t[1] = "del" /\ dq' = q /\ uq' = Append(uq, <<"conn", i, FALSE>>) /\ c' = Close(i) /\ Silent /\ UNCHANGED <<wq, nf, ph>>
(* the attempt succeeds, or is refused or times out (a refusal may be seen again before the attempt is released) *)
Attempt == /\ ph = "run" /\ \E i \in Ids : c[i].wait /\
               IF c[i].k = "ok"
               THEN /\ c' = [c EXCEPT ![i].wait = FALSE, ![i].wk = TRUE] /\ wq' = Append(wq, <<"feed", i>>)
                    /\ Emit(<<[ev |-> "rawacc", raw |-> i, uid |-> i, tls |-> -1]>>) /\ UNCHANGED <<dq, uq, nf, ph>>
               ELSE /\ ~\E j \in DOMAIN dq : dq[j] = <<"dt2", i>> /\ c[i].k = "hole"
                    /\ Cardinality({j \in DOMAIN dq : dq[j] = <<"dt2", i>>}) < 2
                    /\ dq' = Append(dq, <<"dt2", i>>) /\ uq' = Append(uq, <<"err", -1>>) /\ Silent /\ UNCHANGED <<c, wq, nf, ph>>
Accept == /\ ph = "run" /\ Len(c) < MaxC /\ LET i == Len(c) + 1 IN
              /\ c' = Append(c, [New("in") EXCEPT !.fd = 1, !.wk = TRUE]) /\ wq' = Append(wq, <<"feed", i>>)
              /\ Emit(<<[ev |-> "rawconn", raw |-> i, uid |-> i, tls |-> -1]>>) /\ UNCHANGED <<dq, uq, nf, ph>>
(* ---- the worker *)
Work == /\ ph = "run" /\ wq # <<>> /\ wq' = Tail(wq) /\ Silent /\ UNCHANGED <<uq, nf, ph>> /\ LET t == Head(wq)
                                                                                                  i == t[2]
            IN  \/ t[1] = "feed" /\ dq' = Append(dq, <<"setup", i>>) /\ UNCHANGED c
                \/ t[1] = "arm" /\ c' = [c EXCEPT ![i].rd = ~c[i].term] /\ UNCHANGED dq
                \/ /\ t[1] = "wt" /\ IF c[i].term THEN UNCHANGED <<c, dq>>
                                     ELSE c' = [c EXCEPT ![i].term = TRUE, ![i].rd = FALSE] /\ dq' = Append(dq, <<"del", i>>)
Eof == /\ ph = "run" /\ \E i \in Ids : /\ c[i].rd /\ c[i].rclosed /\ ~c[i].eof
           /\ c' = [c EXCEPT ![i].eof = TRUE] /\ wq' = Append(wq, <<"wt", i>>)
           /\ Silent /\ UNCHANGED <<dq, uq, nf, ph>>
Remote == \E i \in Ids : /\ Has(obs.raw, i) /\ ~c[i].rclosed
              /\ c' = [c EXCEPT ![i].rclosed = TRUE] /\ Emit(<<[ev |-> "rawact", raw |-> i, a |-> "close"]>>)
              /\ UNCHANGED <<dq, wq, uq, nf, ph>>
(* ---- stop: the threads end and what is in the pool is released; the user loop goes on until the net is destroyed *)
Stop == /\ Stops /\ ph = "run" /\ ph' = "stopped" /\ dq' = <<>> /\ wq' = <<>>
        /\ c' = [i \in Ids |-> IF c[i].fd = 1 THEN [c[i] EXCEPT !.fd = 2, !.term = TRUE, !.wait = FALSE, !.rd = FALSE] ELSE c[i]]
        /\ Emit(<<[ev |-> "stopc", net |-> 1], [ev |-> "stopped", net |-> 1, u |-> FALSE]>>) /\ UNCHANGED <<uq, nf>>
Destroy == /\ ph = "stopped" /\ ph' = "gone" /\ uq' = <<>> /\ Emit(<<[ev |-> "delc", net |-> 1]>>) /\ UNCHANGED <<c, dq, wq, nf>>
(* ---- rest *)
Open == Cardinality({i \in Ids : c[i].fd = 1})
Rest == /\ dq = <<>> /\ wq = <<>> /\ uq = <<>> /\ \A i \in Ids : ~c[i].wait /\ ~(c[i].rd /\ c[i].rclosed /\ ~c[i].eof)
Quiet == /\ Rest /\ Emit(<<[ev |-> "quiet", ms |-> 100000, badclose |-> Cardinality({i \in Ids : c[i].fd > 2}), socks |-> Open + (IF ph = "run" THEN 1 ELSE 0),
                           fds |-> 0, handles |-> 0, conns |-> Open]>>)
         /\ UNCHANGED <<c, dq, wq, uq, nf, ph>>
Next == Connect \/ Terminate \/ UserLoop \/ Disp \/ Attempt \/ Accept \/ Work \/ Eof \/ Remote \/ Stop \/ Destroy \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(UserLoop) /\ WF_vars(Disp) /\ WF_vars(Attempt) /\ WF_vars(Work) /\ WF_vars(Eof)
NoViol == viol = {}
(* a descriptor is closed once; whoever is served is in the pool *)
Sane == \A i \in Ids : c[i].fd <= 2 /\ (c[i].rd => c[i].fd = 1)
ComesToRest == []<>(Rest \/ ph = "stopped" \/ ph = "gone")
Settles == \A i \in 1..MaxC : [](i \in Ids /\ c[i].term => <>(c[i].fd = 2 \/ ph # "run"))
=============================================================================
