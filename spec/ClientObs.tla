----------------------------- MODULE ClientObs ------------------------------
(***************************************************************************)
(* What a user of a client network (a server that addresses its clients by *)
(* their network address) may observe (property P19), in the same style as *)
(* MsgObs and PeerObs.  An address is a port, a connection between two     *)
(* endpoints is named by its uid.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(label, ok) == IF ok THEN {} ELSE {label}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(f, k) == k \in DOMAIN f
Get(f, k, d) == IF Has(f, k) THEN f[k] ELSE d
Max(a, b) == IF a >= b THEN a ELSE b
Unknown == 9        \* SALTI_ERROR_CLIENT_NOT_EXIST
NotReady == 27      \* SALTI_ERROR_CONN_NOT_READY

Init0 == [srv |-> {},        \* client networks
          sbuf |-> {},       \* those with a bounded send buffer
          raw |-> <<>>,      \* hand-driven client -> [uid, port]
          from |-> <<>>,     \* uid -> port of the client
          up |-> {},         \* uids which the server was told are up
          down |-> {},       \* uids which the server was told are down
          cause |-> {},      \* uids with a reason to go down
          cuid |-> <<>>,     \* connection handle -> uid
          str |-> <<>>,      \* stream -> [net, to, u, poss]
          last |-> <<>>,     \* <<stream, uid>> -> last message received
          got |-> <<>>,      \* <<stream, uid>> -> messages received
          owed |-> {},       \* <<stream, message, uid>> accepted for a live client
          exp |-> <<>>,      \* <<net, id>> -> what a deferred send owes
          rep |-> {},        \* errors reported
          gone |-> {}]

(* the live connection from a port, and whether there may be one *)
Sure(st, p) == {u \in st.up : Has(st.from, u) /\ st.from[u] = p /\ u \notin st.down \cup st.cause}
Poss(st, p) == \E u \in DOMAIN st.from : st.from[u] = p /\ u \notin st.down
One(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE

Cause(st, u) == [st EXCEPT !.cause = @ \cup {u},
    !.exp = [k \in DOMAIN @ |-> IF ~@[k].fin /\ Has(st.from, u) /\ @[k].port = st.from[u] THEN [@[k] EXCEPT !.code = -1] ELSE @[k]]]
Arrive(st, u, p) == [st EXCEPT !.from = Put(@, u, p),
    !.exp = [k \in DOMAIN @ |-> IF ~@[k].fin /\ @[k].port = p THEN [@[k] EXCEPT !.code = -1] ELSE @[k]]]

RUid(st, e) == IF e.raw # 0 THEN st.raw[e.raw].uid ELSE Get(st.cuid, e.c, -1)
RecvViol(st, e) ==
    V("P19.intact", e.ok) \cup
    IF ~e.ok \/ ~Has(st.str, e.s) \/ st.str[e.s].net \notin st.srv THEN {} ELSE
    LET u == RUid(st, e) IN
    V("P19.route", ~Has(st.from, u) \/ st.from[u] = st.str[e.s].to) \cup
    V("P19.order", e.i > Get(st.last, <<e.s, u>>, 0))
RecvUpd(st, e) ==
    IF ~e.ok \/ ~Has(st.str, e.s) \/ st.str[e.s].net \notin st.srv THEN st ELSE
    LET k == <<e.s, RUid(st, e)>> IN
    [st EXCEPT !.last = Put(@, k, e.i + e.n - 1), !.got = Put(@, k, Get(@, k, {}) \cup (e.i .. e.i + e.n - 1))]

SendViol(st, e) ==
    LET r == st.str[e.s] IN
    IF e.net \notin st.srv THEN {} ELSE
    V("P19.code", e.code \in {0, Unknown} /\ (e.ok => e.code = 0)) \cup
    V("P19.reject", e.ok \/ e.code = Unknown \/ e.net \in st.sbuf) \cup
    V("P19.unreachable", r.u = 0 \/ e.code = 0 \/ r.u \in st.cause) \cup
    V("P19.ghost", r.poss \/ r.thr \/ e.code = Unknown)
QuietViol(st, e) ==
    V("P19.lost", \A o \in st.owed : o[3] \in st.cause \cup st.down \/ st.str[o[1]].net \in st.gone \/ o[2] \in Get(st.got, <<o[1], o[3]>>, {})) \cup
    V("P19.error", \A k \in DOMAIN st.exp : st.exp[k].code <= 0 \/ k \in st.rep \/ k[1] \in st.gone) \cup
    V("P19.dropped", \A k \in DOMAIN st.exp : LET x == st.exp[k] IN
        x.u = 0 \/ x.u \in st.cause \cup st.down \/ k[1] \in st.gone \/ k \in st.rep \/ x.i \in Get(st.got, <<x.s, x.u>>, {}))
Viol(st, e) ==
    (IF e.ev \in {"conn", "err", "recv", "recv0"} THEN V("P08.loop", e.on) ELSE {}) \cup
    CASE e.ev = "recv" -> RecvViol(st, e)
      [] e.ev = "send" -> SendViol(st, e)
      [] e.ev = "conn" -> V("P19.down", e.up \/ e.net \notin st.srv \/ Get(st.cuid, e.c, e.uid) \in st.cause \cup {-1})
      [] e.ev = "err" -> IF e.aid < 0 \/ e.net \notin st.srv THEN {} ELSE
                         V("P19.wrong", ~Has(st.exp, <<e.net, e.aid>>) \/ st.exp[<<e.net, e.aid>>].code \in {-1, e.code} \/ (e.code = NotReady /\ e.net \in st.sbuf)) \cup
                         V("P19.twice", <<e.net, e.aid>> \notin st.rep) \cup V("P19.fatal", ~e.fatal)
      [] e.ev = "quiet" -> QuietViol(st, e)
      [] e.ev \in {"fatal", "crash", "hang"} -> {"P08.alive", "P19.alive"}
      [] OTHER -> {}

Upd(st, e) ==
    CASE e.ev = "net" -> IF e.kind = "client" THEN [st EXCEPT !.srv = @ \cup {e.net}, !.sbuf = IF e.sbuf > 0 THEN @ \cup {e.net} ELSE @] ELSE st
      [] e.ev = "rawconn" -> Arrive([st EXCEPT !.raw = Put(@, e.raw, [uid |-> e.uid, port |-> e.src])], e.uid, e.src)
      [] e.ev = "rawact" -> IF e.a \in {"close", "rst", "junk"} THEN Cause(st, st.raw[e.raw].uid) ELSE st
      [] e.ev = "term" -> IF e.uid < 0 THEN st ELSE Cause(st, e.uid)
      [] e.ev = "conn" -> LET u == Get(st.cuid, e.c, e.uid) IN
                          IF e.net \in st.srv
                          THEN IF e.up THEN [(IF Has(st.from, u) THEN st ELSE Arrive(st, u, e.port)) EXCEPT !.cuid = Put(@, e.c, u), !.up = @ \cup {u}]
                               ELSE [st EXCEPT !.down = @ \cup {u}]
                          ELSE IF e.up THEN [st EXCEPT !.cuid = Put(@, e.c, u)] ELSE Cause(st, u)
      [] e.ev = "stream" -> [st EXCEPT !.str = Put(@, e.s, [net |-> e.net, to |-> e.dst, thr |-> e.thr, u |-> 0, poss |-> TRUE])]
      [] e.ev = "sendc" -> LET r == st.str[e.s] IN [st EXCEPT !.str[e.s].u = One(Sure(st, r.to)), !.str[e.s].poss = Poss(st, r.to)]
      [] e.ev = "send" -> IF e.ok /\ st.str[e.s].u # 0 /\ e.net \in st.srv THEN [st EXCEPT !.owed = @ \cup {<<e.s, j, st.str[e.s].u>> : j \in e.i .. e.i + e.n - 1}] ELSE st
      [] e.ev = "sendd" -> LET r == st.str[e.s] IN
                           [st EXCEPT !.exp = Put(@, <<e.net, e.aid>>, [port |-> r.to, fin |-> FALSE, s |-> e.s, i |-> e.i, u |-> r.u,
                                        code |-> IF r.u # 0 THEN 0 ELSE IF r.poss THEN -1 ELSE Unknown])]
      [] e.ev = "err" -> IF e.aid < 0 THEN st ELSE [st EXCEPT !.rep = @ \cup {<<e.net, e.aid>>}]
      [] e.ev = "settled" -> [st EXCEPT !.exp = [k \in DOMAIN @ |-> [@[k] EXCEPT !.fin = TRUE]]]
      [] e.ev = "recv" -> RecvUpd(st, e)
      [] e.ev \in {"stopc", "destroyc", "stoploop"} -> [st EXCEPT !.gone = @ \cup {e.net}]
      [] OTHER -> st
=============================================================================
