------------------------------ MODULE PeerObs -------------------------------
(***************************************************************************)
(* What a user of the peer-to-peer network may observe (properties P09 to  *)
(* P14 and P20), in the same style as MsgObs: Viol(st, e) is the set of    *)
(* guards event e breaks in state st, Upd(st, e) the next state.           *)
(*                                                                         *)
(* A peer is named by the id of its net, or by its port when it is driven  *)
(* by hand (raw).  A pair <<n, m>> is net n's view of peer m.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(label, ok) == IF ok THEN {} ELSE {label}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f
Get(f, k, d) == IF Has(f, k) THEN f[k] ELSE d
Max(a, b) == IF a >= b THEN a ELSE b
RECURSIVE SumOver(_)
SumOver(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE y \in DOMAIN f : TRUE IN f[x] + SumOver([y \in DOMAIN f \ {x} |-> f[y]])
SMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

AlreadyExists == 5
NotExist == 6
NotReady == 7
NotConnReady == 27

Init0 == [net |-> <<>>,      \* configuration of every net
          conn |-> <<>>,     \* connection handles seen so far
          raw |-> <<>>,      \* hand-driven endpoints
          known |-> {},      \* pairs registered, in the order of the calls
          sure |-> {},       \* pairs whose registration state is in force for certain
          addr |-> <<>>,     \* pair -> port of the peer's address (0: none)
          try |-> <<>>,      \* pair -> the connection policy in force
          pup |-> <<>>,      \* pair -> handle of the connection reported up
          wasup |-> {},      \* handles ever reported up as a peer's connection
          pdown |-> {},      \* handles reported down as a peer's connection
          att |-> <<>>,      \* pair -> attempts since the policy was set or the peer was last up
          attlast |-> <<>>,  \* pair -> time of the last attempt seen
          exp |-> <<>>,      \* <<n, id>> -> error owed for an asynchronous call (0: none)
          got |-> {},        \* errors reported
          full |-> {},       \* errors which say so
          rfd |-> {},        \* <<stream, message, receiver>>: may have been refused for the lack of room in the send buffer
          dfr |-> <<>>,      \* <<n, id>> -> the message of a deferred call
          str |-> <<>>,      \* message streams
          nx |-> <<>>,       \* <<stream, receiver>> -> next message expected
          nc |-> <<>>,       \* <<stream, receiver, connection>> -> next message expected on it
          sk |-> <<>>,       \* <<stream, receiver>> -> messages which were passed over
          lo |-> <<>>,       \* <<stream, receiver>> -> messages up to this one may be lost
          wr |-> <<>>,       \* <<stream, uid>> -> last message of the stream which was (partly) written on it
          dist |-> 0,        \* time of the last disturbance
          stable |-> {},     \* pairs which were found settled and undisturbed since
          stalled |-> <<>>,  \* uid -> time since which nothing moves on it
          pm |-> {}, lst |-> {},
          paused |-> {}, gone |-> {}, fault |-> FALSE, manual |-> FALSE,
          upms |-> <<>>,     \* pair -> time it was reported up
          unans |-> <<>>,    \* raw -> time of the first heartbeat it has not answered
          ask |-> <<>>,      \* raw -> heartbeats it sent which were not answered yet
          beat |-> <<>>,     \* raw -> time of the last heartbeat it was sent
          rem |-> {},        \* pairs whose registration was removed since everything was last settled
          newhs |-> {},      \* pairs which are up and shook hands again
          told |-> {},       \* pairs for which the unknown peer callback ran since the registration last changed
          calm |-> FALSE]    \* nothing happened since everything settled

Live(st, n) == Has(st.net, n) /\ n \notin st.gone \cup st.paused
Healthy(st) == /\ ~st.fault /\ DOMAIN st.stalled = {} /\ st.pm = {}
               /\ \A n \in DOMAIN st.net : Live(st, n)
PortOf(st, m) == IF Has(st.net, m) THEN st.net[m].port ELSE m
KeyOf(st, port) == LET S == {n \in DOMAIN st.net : st.net[n].port = port} IN IF S = {} THEN port ELSE CHOOSE n \in S : TRUE
UidOf(st, c) == IF Has(st.conn, c) THEN st.conn[c].uid ELSE -1

(* how long the two sides may take to agree once nothing disturbs them *)
Conv(st) == LET D == {st.try[p].delay : p \in DOMAIN st.try}
                T == {st.net[n].cto : n \in DOMAIN st.net}
            IN  30 * SMax(D) + 2 * SMax(T) + 500
Pairs(st) == {p \in st.known : Has(st.net, p[2]) /\ <<p[2], p[1]>> \in st.known /\ p[1] # p[2]}
Dials(st, n, m) == /\ Has(st.try, <<n, m>>) /\ st.try[<<n, m>>].nt < 0
                   /\ Get(st.addr, <<n, m>>, 0) = PortOf(st, m) /\ PortOf(st, m) \in st.lst
RightAddr(st, n, m) == Get(st.addr, <<n, m>>, 0) \in {0, PortOf(st, m)}
(* pairs which have to be connected: they know each other, at least one of them keeps dialling *)
Owed(st) == {p \in Pairs(st) : /\ Dials(st, p[1], p[2]) \/ Dials(st, p[2], p[1])
                               /\ RightAddr(st, p[1], p[2]) /\ RightAddr(st, p[2], p[1])
                               /\ \A q \in {<<p[1], p[2]>>, <<p[2], p[1]>>} : (~Has(st.try, q) \/ st.try[q].nt <= 0)
                               /\ PortOf(st, p[1]) \in st.lst /\ PortOf(st, p[2]) \in st.lst}
Agreed(st, p) == LET q == <<p[2], p[1]>> IN
    /\ Has(st.pup, p) /\ Has(st.pup, q)
    /\ UidOf(st, st.pup[p]) = UidOf(st, st.pup[q]) /\ UidOf(st, st.pup[p]) # -1
    /\ st.conn[st.pup[p]].ph # "down" /\ st.conn[st.pup[q]].ph # "down"

(* A deferred message may be refused for the lack of room only where so many messages may have been waiting.  At   *)
(* most those handed over by now, without those received when the call was made, wait; the rest of the bound are   *)
(* heartbeats, which share the buffer, and blocks of the buffer which other threads hold for a moment.             *)
StreamsTo(st, p) == {s \in DOMAIN st.str : st.str[s].net = p[1] /\ p[2] \in st.str[s].to}
GotBy(st, n, S) == [m \in S |-> SumOver([x \in StreamsTo(st, <<n, m>>) |-> Get(st.nx, <<x, m>>, 1) - 1])]
FullAt(st, n, d) == {m \in st.str[d[1]].to :
    LET S == StreamsTo(st, <<n, m>>)
        w == SumOver([x \in S |-> st.str[x].called]) - st.str[d[1]].got[d[2]][m]
        blk == st.net[n].blk
        p == <<n, m>>
        room == IF Has(st.pup, p) /\ p \in st.known \cap st.sure THEN Max(st.net[n].sbuf \div blk, 1) * blk ELSE blk
    IN  w + 8 + blk * Cardinality({x \in S : st.str[x].thr}) >= room}
Refused(st, k) == IF ~Has(st.dfr, k) \/ k \notin st.full THEN st
                  ELSE [st EXCEPT !.rfd = @ \cup {<<st.dfr[k][1], st.dfr[k][2], m>> : m \in FullAt(st, k[1], st.dfr[k])}]
Handed(st, s, i) == LET r == st.str[s] IN
    IF r.net = 0 \/ st.net[r.net].sbuf = 0 THEN st ELSE [st EXCEPT !.str[s].got = Put(@, i, GotBy(st, r.net, r.to))]

(***************************************************************************)
(* Peer notifications                                                      *)
(***************************************************************************)
RawOn(st, u) == {r \in DOMAIN st.raw : st.raw[r].uid = u}
PeerViol(st, e) ==
    LET p == <<e.net, e.pk>>
    IN  IF e.up THEN
            V("P10.upagain", ~Has(st.pup, p) \/ p \in st.rem) \cup
            V("P10.sameconn", e.c \notin st.wasup) \cup
            V("P10.noconn", Has(st.conn, e.c)) \cup
            V("P13.unregistered", p \in st.known \/ p \notin st.sure)
        ELSE
            V("P10.downagain", e.c \notin st.pdown) \cup
            V("P10.notcurrent", IF e.c \in st.wasup THEN Has(st.pup, p) /\ st.pup[p] = e.c ELSE e.act) \cup
            V("P13.deleted", e.c \notin st.wasup \/ p \in st.known \/ p \notin st.sure) \cup
            (IF ~(Has(st.pup, p) /\ st.pup[p] = e.c) THEN {} ELSE
             V("P09.stable", p \notin st.stable) \cup V("P12.needless", p \notin st.stable) \cup
             V("P12.early", p \in st.newhs \/ \A r \in RawOn(st, UidOf(st, e.c)) :
                st.raw[r].closed \/ st.dist > st.upms[p] \/ (Has(st.unans, r) /\ e.ms - st.unans[r] >= st.net[e.net].ct - 60)))
(* a broken connection may take with it what was (partly) written on it; under TLS, where this cannot be seen, *)
(* what was handed over before its end was reported *)
Taken(st, u) == LET K == {k \in DOMAIN st.wr : k[2] = u /\ Has(st.str, k[1])}
                    J == {<<k[1], m>> : k \in K, m \in UNION {st.str[k[1]].to : k \in K}}
                IN  [x \in DOMAIN st.lo \cup J |-> IF x \in J THEN Max(Get(st.lo, x, 0), Get(st.wr, <<x[1], u>>, 0)) ELSE st.lo[x]]
Loss(st, p) == LET K == {<<s, p[2]>> : s \in StreamsTo(st, p)} IN
    [x \in DOMAIN st.lo \cup K |-> IF x \in K THEN st.str[x[1]].called ELSE st.lo[x]]
PeerUpd(st, e) ==
    LET p == <<e.net, e.pk>> IN
    IF e.up THEN [st EXCEPT !.pup = Put(@, p, e.c), !.newhs = @ \ {p}, !.wasup = @ \cup {e.c}, !.att = Put(@, p, 0), !.upms = Put(@, p, e.ms),
                           !.try = IF Has(@, p) THEN [@ EXCEPT ![p].was = TRUE] ELSE @]
    ELSE [st EXCEPT !.pup = IF Has(@, p) /\ @[p] = e.c THEN Del(@, p) ELSE @,
                    !.pdown = @ \cup {e.c},
                    !.lo = IF Has(st.pup, p) /\ st.pup[p] = e.c /\ st.net[e.net].tls THEN Loss(st, p) ELSE @,
                    !.stable = @ \ {p, <<p[2], p[1]>>}]

(***************************************************************************)
(* Connections below                                                       *)
(***************************************************************************)
ConnUpd(st, e) ==
    LET p == <<e.net, e.pk>>
        new == ~Has(st.conn, e.c)
        s1 == [st EXCEPT !.conn = Put(@, e.c, [net |-> e.net, uid |-> IF new THEN e.uid ELSE @[e.c].uid, pk |-> e.pk, act |-> e.act,
                                               ph |-> IF e.up THEN "up" ELSE "down", ms |-> e.ms]),
                         !.lo = IF e.up THEN @ ELSE Taken(st, IF new THEN e.uid ELSE st.conn[e.c].uid)]
    IN  IF new /\ e.act THEN [s1 EXCEPT !.att = Put(@, p, Get(@, p, 0) + 1), !.attlast = Put(@, p, e.ms)] ELSE s1
(* never more attempts in a row than allowed, never faster than the delay allows *)
ConnViol(st, e) ==
    LET p == <<e.net, e.pk>>
        fresh == ~Has(st.conn, e.c) /\ e.act /\ Has(st.try, p) /\ ~st.manual
    IN  V("P11.toomany", ~fresh \/ st.try[p].nt < 0 \/ Get(st.att, p, 0) + 1 <= st.try[p].nt + st.try[p].re) \cup
        V("P11.toofast", ~fresh \/ e.up \/ Get(st.att, p, 0) <= st.try[p].re \/ p[2] \in DOMAIN st.net \/ ~Has(st.attlast, p)
                         \/ e.ms - st.attlast[p] >= st.try[p].delay - 30)

(***************************************************************************)
(* Calls and their errors                                                  *)
(***************************************************************************)
ErrOf(st, e) ==
    LET p == <<e.net, e.arg>> IN
    CASE e.op = "addpeer" -> IF p \in st.known THEN AlreadyExists ELSE 0
      [] e.op \in {"delpeer", "setaddr"} -> IF p \in st.known THEN 0 ELSE NotExist
      [] e.op = "connpeer" -> IF p \notin st.known THEN NotExist ELSE IF Get(st.addr, p, 0) = 0 THEN NotReady ELSE 0
      [] OTHER -> -1
CallUpd(st, e) ==
    LET p == <<e.net, e.arg>>
        s0 == [st EXCEPT !.dist = e.ms, !.stable = {}]
    IN  CASE e.op = "addpeer" -> IF p \in st.known THEN s0 ELSE
                [s0 EXCEPT !.known = @ \cup {p}, !.sure = @ \ {p}, !.addr = Put(@, p, 0), !.told = @ \ {p}]
          [] e.op = "delpeer" -> IF p \notin st.known THEN s0 ELSE
                [s0 EXCEPT !.known = @ \ {p}, !.sure = @ \ {p}, !.rem = @ \cup {p}, !.addr = Put(@, p, 0), !.try = Del(@, p), !.told = @ \ {p}, !.lo = Loss(st, p)]
          [] e.op = "setaddr" -> IF p \notin st.known THEN s0 ELSE [s0 EXCEPT !.addr = Put(@, p, e.arg2)]
          [] e.op = "connpeer" -> IF ErrOf(st, e) # 0 THEN s0 ELSE
                [s0 EXCEPT !.try = Put(@, p, [nt |-> e.arg2, delay |-> e.delay, re |-> IF Has(@, p) THEN @[p].re + 1 ELSE 0, ms |-> e.ms, was |-> FALSE]), !.att = Put(@, p, 0)]
          [] OTHER -> s0
RetUpd(st, e) ==       \* the call returned its id
    IF e.op = "connect" THEN [st EXCEPT !.exp = Put(@, <<e.net, e.aid>>, -1)]
    ELSE [st EXCEPT !.exp = Put(@, <<e.net, e.aid>>, ErrOf(st, e))]
ErrViol(st, e) ==
    LET k == <<e.net, e.aid>> IN
    V("P09.fatal", ~e.fatal \/ st.fault) \cup V("P11.fatal", ~e.fatal \/ st.fault) \cup V("P13.fatal", ~e.fatal \/ st.fault) \cup
    V("P20.fatal", ~e.fatal \/ st.fault) \cup
    IF e.aid < 0 THEN {} ELSE
    V("P20.wrong", ~Has(st.exp, k) \/ st.exp[k] \in {-1, e.code}) \cup
    V("P20.twice", k \notin st.got) \cup
    V("P20.notfull", e.code # NotConnReady \/ ~Has(st.dfr, k) \/ FullAt(st, e.net, st.dfr[k]) # {})

(***************************************************************************)
(* Messages addressed to peers                                             *)
(***************************************************************************)
Recv(st, e) == IF e.raw # 0 THEN st.raw[e.raw].as ELSE e.net
RecvViol(st, e) ==
    V("P14.intact", e.ok) \cup V("P20.intact", e.ok) \cup
    IF ~e.ok \/ ~Has(st.str, e.s) \/ st.str[e.s].to = {} THEN {} ELSE
    LET r == st.str[e.s]
        k == <<e.s, Recv(st, e)>>
        from == IF e.raw # 0 \/ ~Has(st.conn, e.c) THEN r.net ELSE st.conn[e.c].pk
    IN  V("P14.route", Recv(st, e) \in r.to /\ from = r.net) \cup
        V("P20.route", Recv(st, e) \in r.to) \cup
        (* on one connection messages arrive in order; one which was overtaken may still come from an older connection *)
        V("P14.order", /\ e.i >= Get(st.nc, <<e.s, k[2], e.c>>, 1)
                       /\ \/ e.i >= Get(st.nx, k, 1)
                          \/ \A j \in e.i .. e.i + e.n - 1 : j \in Get(st.sk, k, {}) \/ j >= Get(st.nx, k, 1)) \cup
        V("P14.phantom", e.i + e.n - 1 <= r.called)
RecvUpd(st, e) ==
    IF ~e.ok \/ ~Has(st.str, e.s) \/ st.str[e.s].to = {} THEN st ELSE
    LET k == <<e.s, Recv(st, e)>> IN
    [st EXCEPT !.nx = Put(@, k, Max(Get(@, k, 1), e.i + e.n)),
               !.nc = Put(@, <<e.s, k[2], e.c>>, e.i + e.n),
               !.sk = IF e.i > Get(st.nx, k, 1) THEN Put(@, k, Get(@, k, {}) \cup (Get(st.nx, k, 1) .. e.i - 1))
                      ELSE IF e.i = Get(st.nx, k, 1) THEN @ ELSE Put(@, k, Get(@, k, {}) \ (e.i .. e.i + e.n - 1))]

(***************************************************************************)
(* Obligations once nothing moves any more                                 *)
(***************************************************************************)
Bound(st, n) == (3 * st.net[n].ping) \div 2 + st.net[n].ct + 200
OpenRaw(st, p) == {r \in RawOn(st, UidOf(st, st.pup[p])) : ~st.raw[r].closed}
QuietViol(st, e) ==
    LET healthy == Healthy(st)
        longago == e.ms - st.dist >= Conv(st)
        ends == {c \in DOMAIN st.conn : st.conn[c].ph = "down"}
        lostup == {p \in DOMAIN st.pup : Live(st, p[1]) /\ st.pup[p] \in ends /\ p \in st.known}
        K == {k \in DOMAIN st.nx \cup DOMAIN st.lo \cup {<<s, m>> : s \in DOMAIN st.str, m \in UNION {st.str[t].to : t \in DOMAIN st.str}} :
                Has(st.str, k[1]) /\ k[2] \in st.str[k[1]].to}
        missing == {k \in K : LET p == <<st.str[k[1]].net, k[2]>> IN
                        /\ p \in st.known /\ Has(st.net, k[2]) /\ p \in Owed(st) /\ Agreed(st, p)
                        /\ \E j \in Max(Get(st.nx, k, 1), Get(st.lo, k, 0) + 1) .. st.str[k[1]].sent : <<k[1], j, k[2]>> \notin st.rfd}
        silentraw == {p \in DOMAIN st.pup : Live(st, p[1]) /\ \E r \in OpenRaw(st, p) :
                        Has(st.unans, r) /\ e.ms - st.unans[r] > st.net[p[1]].ct + 200}
        notasked == {p \in DOMAIN st.pup : Live(st, p[1]) /\ \E r \in OpenRaw(st, p) :
                        ~Has(st.unans, r) /\ e.ms - Max(st.upms[p], Get(st.beat, r, 0)) > (3 * st.net[p[1]].ping) \div 2 + 200}
        stalledup == {p \in DOMAIN st.pup : Live(st, p[1]) /\ Has(st.stalled, UidOf(st, st.pup[p]))
                        /\ e.ms - st.stalled[UidOf(st, st.pup[p])] > Bound(st, p[1])}
        tries == {p \in DOMAIN st.try : /\ p \in st.known /\ Live(st, p[1]) /\ ~Has(st.pup, p) /\ ~st.manual /\ ~st.fault
                                        /\ Get(st.addr, p, 0) = PortOf(st, p[2])}
    IN  V("P09.agree", ~healthy \/ ~longago \/ \A p \in Owed(st) : Agreed(st, p)) \cup
        V("P11.reconnect", ~healthy \/ ~longago \/ \A p \in Owed(st) : Has(st.pup, p)) \cup
        V("P10.stale", lostup = {}) \cup
        V("P14.complete", ~healthy \/ missing = {}) \cup
        V("P20.complete", ~healthy \/ missing = {}) \cup
        V("P14.gap", \A k \in DOMAIN st.sk : (\A j \in st.sk[k] : j <= Get(st.lo, k, 0) \/ <<k[1], j, k[2]>> \in st.rfd) \/ <<st.str[k[1]].net, k[2]>> \notin st.known) \cup
        V("P12.silent", silentraw = {}) \cup
        (* a connection over which no peer ever shook hands does not stay *)
        V("P12.idle", \A c \in DOMAIN st.conn : LET n == st.conn[c].net IN
            st.conn[c].ph = "down" \/ c \in st.wasup \/ ~Live(st, n) \/ e.ms - st.conn[c].ms <= st.net[n].ct + 300) \cup
        V("P12.answers", ~Healthy(st) \/ \A p \in DOMAIN st.pup : \A r \in OpenRaw(st, p) : Get(st.ask, r, 0) = 0) \cup V("P12.pings", notasked = {} \/ ~Healthy(st)) \cup V("P12.stalled", stalledup = {}) \cup
        V("P11.gaveup", \A p \in tries : st.try[p].nt <= 0 \/ (LET k == IF st.try[p].was THEN st.try[p].nt - 1 ELSE st.try[p].nt IN Get(st.att, p, 0) \in k .. k + st.try[p].re) \/ p[2] \in DOMAIN st.net
                                        \/ e.ms - st.try[p].ms < st.try[p].nt * (2 * st.try[p].delay + st.net[p[1]].cto) + 500) \cup
        V("P11.keeps", \A p \in tries : st.try[p].nt >= 0 \/ p[2] \in DOMAIN st.net \/ ~Has(st.attlast, p)
                                        \/ e.ms - Max(st.attlast[p], st.try[p].ms) <= (3 * st.try[p].delay) \div 2 + st.net[p[1]].cto + 200) \cup
        V("P20.lost", \A k \in DOMAIN st.exp : st.exp[k] <= 0 \/ k \in st.got \/ ~Live(st, k[1])) \cup
        V("P13.closed", ~healthy \/ st.manual \/ \A c \in DOMAIN st.conn : LET p == <<st.conn[c].net, st.conn[c].pk>> IN
                        st.conn[c].ph = "down" \/ p \in st.known \/ ~(p \in st.sure \/ longago) \/ p[2] \notin DOMAIN st.net) \cup
        V("P13.told", ~healthy \/ ~longago \/ \A n, m \in DOMAIN st.net :
                        (n # m /\ Dials(st, m, n) /\ <<m, n>> \in st.known /\ <<n, m>> \notin st.known) => <<n, m>> \in st.told)

QueryViol(st, e) ==
    LET p == <<e.net, e.arg>> IN
    CASE e.ev = "haspeer" -> V("P13.has", e.r = (p \in st.known))
      [] e.ev = "getconn" -> V("P13.get", (e.code = 0) = (p \in st.known) /\ (e.code \in {0, NotExist})) \cup V("P20.get", e.code \in {0, NotExist}) \cup
                             (IF ~st.calm \/ e.code # 0 \/ ~Healthy(st) THEN {} ELSE
                              IF Has(st.pup, p) THEN V("P10.lookup", e.c = st.pup[p] /\ ~e.term) ELSE V("P10.lookupdown", e.term))
      [] OTHER -> {}
Viol(st, e) ==
    (IF e.ev \in {"peer", "unk", "conn", "err", "recv", "recv0"} THEN V("P08.loop", e.on) ELSE {}) \cup
    CASE e.ev = "peer" -> PeerViol(st, e)
      [] e.ev = "conn" -> ConnViol(st, e)
      [] e.ev = "err" -> ErrViol(st, e)
      [] e.ev = "recv" -> RecvViol(st, e)
      [] e.ev = "unk" -> V("P13.isknown", LET p == <<e.net, KeyOf(st, e.port)>> IN p \notin st.known \/ p \notin st.sure)
      [] e.ev = "wirebad" -> {"P14.wire"}
      [] e.ev = "wiremis" -> {"P14.frame"}
      (* the messages of one sender are written in order, across all connections to their destination *)
      [] e.ev = "wrote" -> V("P14.written", ~Has(st.str, e.s) \/ Cardinality(st.str[e.s].to) # 1 \/ \A k \in DOMAIN st.wr : k[1] # e.s \/ st.wr[k] < e.i)
      [] e.ev = "peerid" -> V("P10.identity", ~st.calm \/ \A p \in DOMAIN st.pup : st.pup[p] = e.c => e.pid = p[2])
      [] e.ev = "send" -> V("P14.rejected", e.ok \/ e.net = 0 \/ e.code = NotExist \/ st.net[e.net].sbuf > 0) \cup
                          V("P13.sends", e.net = 0 \/ st.str[e.s].to = {} \/ (e.code = NotExist) = (\E m \in st.str[e.s].to : <<e.net, m>> \notin st.known) \/ st.str[e.s].thr
                                       \/ \E m \in st.str[e.s].to : <<e.net, m>> \notin st.sure)
      [] e.ev \in {"api", "sendd", "mcast"} -> V("P20.reused", ~Has(st.exp, <<e.net, e.aid>>))
      [] e.ev \in {"haspeer", "getconn"} -> QueryViol(st, e)
      (* everything under way is finished: the connection to a removed peer is closed *)
      [] e.ev = "settled" -> V("P13.cut", ~Healthy(st) \/ st.manual \/ \A c \in DOMAIN st.conn :
                                 c \notin st.wasup \/ st.conn[c].ph = "down" \/ <<st.conn[c].net, st.conn[c].pk>> \in st.known \/ <<st.conn[c].net, st.conn[c].pk>> \notin st.rem)
      [] e.ev = "quiet" -> QuietViol(st, e)
      [] e.ev \in {"fatal", "crash", "hang"} -> {"P08.alive", "P09.alive", "P10.alive", "P11.alive", "P12.alive", "P13.alive", "P14.alive", "P20.alive"}
      [] OTHER -> {}

Disturb(st, e) == [st EXCEPT !.dist = e.ms, !.stable = {}]
Upd1(st, e) ==
    CASE e.ev = "net" -> [st EXCEPT !.net = Put(@, e.net, [port |-> e.port, ct |-> e.ctms, ping |-> e.pingms, cto |-> e.ctoms, sbuf |-> e.sbuf, blk |-> e.blk, tls |-> e.tls]), !.dist = e.ms]
      [] e.ev = "listen" -> IF e.code # 0 THEN st ELSE Disturb([st EXCEPT !.lst = @ \cup {e.port}], e)
      [] e.ev = "rawlisten" -> Disturb([st EXCEPT !.lst = IF e.on THEN @ \cup {e.port} ELSE @ \ {e.port}], e)
      [] e.ev = "portmode" -> Disturb([st EXCEPT !.pm = IF e.mode = 0 THEN @ \ {e.port} ELSE @ \cup {e.port}], e)
      [] e.ev = "connectc" -> Disturb([st EXCEPT !.manual = TRUE], e)
      [] e.ev = "apic" -> CallUpd([st EXCEPT !.exp = Put(@, <<e.net, -2>>, ErrOf(st, e))], e)
      [] e.ev = "api" -> IF e.op = "connect" THEN RetUpd(st, e) ELSE [st EXCEPT !.exp = Put(Del(@, <<e.net, -2>>), <<e.net, e.aid>>, @[<<e.net, -2>>])]
      [] e.ev = "err" -> IF e.aid >= 0 THEN Refused([st EXCEPT !.got = @ \cup {<<e.net, e.aid>>}, !.full = IF e.code = NotConnReady THEN @ \cup {<<e.net, e.aid>>} ELSE @], <<e.net, e.aid>>) ELSE st
      [] e.ev = "stream" -> [st EXCEPT !.str = Put(@, e.s, [net |-> e.net, to |-> IF e.dst > 0 THEN {e.dst} ELSE {}, called |-> 0, sent |-> 0, thr |-> e.thr, got |-> <<>>])]
      [] e.ev = "sendc" -> Handed([st EXCEPT !.str[e.s].called = Max(@, e.upto)], e.s, e.upto)
      [] e.ev = "send" -> IF e.ok THEN [st EXCEPT !.str[e.s].sent = e.i + e.n - 1, !.str[e.s].called = Max(@, e.i + e.n - 1)] ELSE st
      [] e.ev = "sendd" -> LET un == {m \in st.str[e.s].to : <<e.net, m>> \notin st.known} IN
                           Refused([st EXCEPT !.str[e.s].sent = e.i, !.dfr = Put(@, <<e.net, e.aid>>, <<e.s, e.i>>),
                                      !.lo = IF un = {} THEN @ ELSE Put(@, <<e.s, CHOOSE m \in un : TRUE>>, e.i),
                                      !.exp = Put(@, <<e.net, e.aid>>, IF un # {} THEN NotExist ELSE IF st.net[e.net].sbuf > 0 THEN -1 ELSE 0)], <<e.net, e.aid>>)
      [] e.ev = "mcastc" -> Handed([st EXCEPT !.str[e.s].to = {e.to[j] : j \in 1..Len(e.to)}, !.str[e.s].called = e.i], e.s, e.i)
      [] e.ev = "mcast" -> LET un == {m \in st.str[e.s].to : <<e.net, m>> \notin st.known} IN
                           Refused([st EXCEPT !.str[e.s].sent = e.i, !.dfr = Put(@, <<e.net, e.aid>>, <<e.s, e.i>>),
                                      !.lo = IF un = {} THEN @ ELSE [k \in DOMAIN @ \cup {<<e.s, m>> : m \in st.str[e.s].to} |-> IF k[1] = e.s THEN e.i ELSE @[k]],
                                      !.exp = Put(@, <<e.net, e.aid>>, IF un # {} THEN NotExist ELSE IF st.net[e.net].sbuf > 0 THEN -1 ELSE 0)], <<e.net, e.aid>>)
      [] e.ev = "recv" -> RecvUpd(st, e)
      [] e.ev = "wrote" -> [st EXCEPT !.wr = Put(@, <<e.s, e.uid>>, Max(Get(@, <<e.s, e.uid>>, 0), e.i + e.n - 1))]
      [] e.ev = "peer" -> PeerUpd(st, e)
      [] e.ev = "conn" -> ConnUpd(st, e)
      [] e.ev = "unk" -> [st EXCEPT !.told = @ \cup {<<e.net, KeyOf(st, e.port)>>}]
      [] e.ev \in {"rawconn", "rawacc"} -> Disturb([st EXCEPT !.raw = Put(@, e.raw, [uid |-> e.uid, as |-> e.as, hb |-> e.hb, closed |-> FALSE])], e)
      [] e.ev = "rawact" -> IF e.a \in {"hold", "unhold"} THEN st ELSE Disturb([st EXCEPT !.raw[e.raw].closed = TRUE], e)
      [] e.ev = "rawhs" -> [st EXCEPT !.newhs = @ \cup {p \in DOMAIN st.pup : p[2] = e.port}]
      [] e.ev = "rawset" -> [st EXCEPT !.raw[e.raw].hb = e.hb]
      [] e.ev = "rawhb" -> IF e.ping THEN [st EXCEPT !.ask = Put(@, e.raw, Get(@, e.raw, 0) + 1)] ELSE [st EXCEPT !.unans = Del(@, e.raw)]
      [] e.ev = "wirehs" -> IF e.hs THEN st ELSE IF ~e.ping THEN [st EXCEPT !.ask = Put(@, e.raw, Get(@, e.raw, 0) - 1)] ELSE
                            [st EXCEPT !.beat = Put(@, e.raw, e.ms),
                                       !.unans = IF st.raw[e.raw].hb \/ Has(@, e.raw) THEN @ ELSE Put(@, e.raw, e.ms)]
      [] e.ev = "cut" -> Disturb(IF e.how = 0 THEN [st EXCEPT !.stalled = Put(@, e.uid, e.ms)]
                                 ELSE IF e.how = 1 THEN [st EXCEPT !.stalled = Del(@, e.uid)] ELSE st, e)
      [] e.ev = "inject" -> [st EXCEPT !.fault = TRUE]
      [] e.ev = "term" -> Disturb(st, e)
      [] e.ev = "pause" -> Disturb([st EXCEPT !.paused = @ \cup {e.net}], e)
      [] e.ev = "resume" -> Disturb([st EXCEPT !.paused = @ \ {e.net}], e)
      [] e.ev = "loopend" -> [st EXCEPT !.paused = @ \cup {e.net}]
      [] e.ev \in {"stopc", "stopped", "delc"} -> [st EXCEPT !.gone = @ \cup {e.net}, !.dist = e.ms, !.stable = {}]
      [] e.ev = "settled" -> [st EXCEPT !.rem = {}, !.pup = [p \in {x \in DOMAIN @ : x \notin st.rem \/ (x \in st.known /\ st.conn[@[x]].ph # "down")} |-> @[p]],
                                     !.sure = {<<n, m>> : n \in DOMAIN st.net, m \in DOMAIN st.net \cup {p[2] : p \in st.known}}]
      [] e.ev = "quiet" -> IF Healthy(st) /\ e.ms - st.dist >= Conv(st) THEN [st EXCEPT !.stable = {p \in Owed(st) : Agreed(st, p)} \cup
                                {p \in DOMAIN st.pup : \E r \in OpenRaw(st, p) : st.raw[r].hb /\ ~Has(st.unans, r)}] ELSE st
      [] OTHER -> st
Upd(st, e) == LET s == Upd1(st, e) IN
    IF e.ev \in {"settled", "quiet"} THEN [s EXCEPT !.calm = TRUE]
    ELSE IF e.ev \in {"haspeer", "getconn", "peerid", "npending", "done", "stat"} THEN s ELSE [s EXCEPT !.calm = FALSE]
=============================================================================
