------------------------------- MODULE MsgObs -------------------------------
(***************************************************************************)
(* What a user of the message network may observe, as a state machine over *)
(* observable events.  The state is one record; Viol(st, e) is the set of  *)
(* guards which event e breaks in state st and Upd(st, e) the next state.  *)
(* An event is allowed iff Viol(st, e) = {}, i.e. the specification is     *)
(*     Spec == st = Init0 /\ [][\E e : Viol(st,e) = {} /\ st' = Upd(st,e)] *)
(* Guards are labelled "Pxx.name" so that each property is judged on its   *)
(* own.  The same operators are used by the trace checker (TraceMsg) on    *)
(* traces recorded from the implementation and, composed with the design   *)
(* models, in TLC's exhaustive runs.                                       *)
(*                                                                         *)
(* Vocabulary: a net is one endpoint process object; c a connection handle *)
(* at one net; uid a TCP connection (the same at both ends); s a stream =  *)
(* the messages one thread sends on one handle, numbered 1, 2, ...; raw an *)
(* endpoint driven by hand (a foreign, possibly hostile implementation).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(label, ok) == IF ok THEN {} ELSE {label}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(f, k) == k \in DOMAIN f
Max(a, b) == IF a >= b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f(x) + SumOver(f, S \ {x})
(* the bounded queues have a granularity, their block size *)
QMin(n, blk) == Max(n \div blk, 1) * blk
QCap(n, blk) == QMin(n, blk) + blk

Init0 == [net |-> <<>>,     \* configuration and status of every net
          conn |-> <<>>,    \* connection handles which have been notified
          str |-> <<>>,     \* message streams
          raw |-> <<>>,     \* hand-driven endpoints
          dead |-> {},      \* uids which must end
          may |-> {},       \* uids which may end
          stalled |-> {},   \* uids on which nothing moves for now
          anyfault |-> FALSE, \* a system call failure was injected
          pm |-> {},        \* ports in a special mode (black hole / unreachable)
          slow |-> <<>>,    \* port -> ms after which it answers
          lst |-> {},       \* ports somebody listens on
          unl |-> {},       \* ports which had no (or a replaced) listener at some time since somebody connects to them
          termreq |-> {},   \* handles whose termination was requested
          paused |-> {},    \* nets whose user loop is held up
          everp |-> FALSE,
          asked |-> <<>>,   \* per net: connection attempts requested
          failed |-> <<>>,  \* per net: attempts reported as errors by their id
          early |-> <<>>,   \* errors whose id is not known yet (the call has not returned): <<net, id>> -> number
          aids |-> <<>>,    \* per net: ids of connection attempts
          z0 |-> <<>>,      \* per uid: empty messages sent and received
          lastcon |-> 0, hung |-> FALSE,
          gone |-> {},      \* nets which were stopped
          ustop |-> {},     \* nets stopped from their own user loop
          deleted |-> {}]   \* nets whose destruction has begun

Count(f, n) == IF Has(f, n) THEN f[n] ELSE 0
UidOfConn(st, c) == IF Has(st.conn, c) THEN st.conn[c].uid ELSE -1
UidOfStream(st, s) == LET r == st.str[s] IN
    IF r.raw # 0 THEN st.raw[r.raw].uid ELSE UidOfConn(st, r.c)
IsPeer(st, n) == st.net[n].kind = "peer"
Live(st, n) == Has(st.net, n) /\ n \notin st.gone /\ n \notin st.paused
UidsOf(st, n) == {st.conn[c].uid : c \in {c \in DOMAIN st.conn : st.conn[c].net = n}} \ {-1}

(***************************************************************************)
(* Messages                                                                *)
(***************************************************************************)
AttOf(r, i) == IF Has(r.acc, i) THEN r.acc[i] ELSE IF r.raw # 0 THEN 0 ELSE 1

RecvViol(st, e) ==
    V("P01.intact", e.ok) \cup V("P02.garbage", e.ok) \cup
    (IF ~e.ok THEN {} ELSE
     IF ~Has(st.str, e.s) THEN {"P01.unknown"} ELSE
     LET r == st.str[e.s]
         u == UidOfStream(st, e.s)
         w == IF e.raw # 0 THEN st.raw[e.raw].uid ELSE UidOfConn(st, e.c)
         direct == r.dst = 0                \* sent on a handle (not addressed to a peer)
     IN  IF r.raw # 0 /\ e.a # 0 THEN {"P02.delivered"}   \* a deliberately malformed one
         ELSE V("P01.order", ~direct \/ e.i = r.next) \cup
              V("P03.order", ~direct \/ e.i = r.next \/ ~st.everp) \cup
              V("P02.afterover", r.lim = 0 \/ e.i + e.n - 1 < r.lim) \cup
              V("P01.phantom", e.i + e.n - 1 <= r.called) \cup
              V("P04.rejected", \A j \in e.i..(e.i + e.n - 1) : j > r.sent \/ e.a = AttOf(r, j)) \cup
              V("P01.route", ~direct \/ u = -1 \/ w = -1 \/ (u = w /\ e.c # r.c))) \cup
    (IF e.raw # 0 THEN {} ELSE
     V("P05.early", Has(st.conn, e.c) /\ st.conn[e.c].was /\ st.conn[e.c].ph \in {"up", "down"}) \cup
     V("P07.refused", ~Has(st.conn, e.c) \/ ~st.net[e.net].tls \/ st.conn[e.c].ret) \cup
     V("P08.loop", e.on) \cup V("P21.after", e.net \notin st.deleted) \cup V("P21.msgafter", e.net \notin st.ustop))
RecvUpd(st, e) ==
    IF ~e.ok \/ ~Has(st.str, e.s) THEN st
    ELSE IF st.str[e.s].raw # 0 /\ e.a # 0 THEN st
    ELSE [st EXCEPT !.str[e.s].next = e.i + e.n]

(* messages accepted on the same handle and not yet seen by the receiver *)
Waiting(st, s) == LET S == {x \in DOMAIN st.str : st.str[x].c = st.str[s].c /\ st.str[x].raw = 0 /\ st.str[x].dst = 0 /\ st.str[s].dst = 0} \cup {s}
                      D(x) == st.str[x].sent - (st.str[x].next - 1)
                  IN  SumOver(D, S)
Held(st, u) == \E r \in DOMAIN st.raw : st.raw[r].uid = u /\ st.raw[r].hold
Rivals(st, s) == Cardinality({x \in DOMAIN st.str \ {s} : st.str[x].c = st.str[s].c /\ st.str[x].raw = 0})
SendViol(st, e) ==
    IF e.net = 0 THEN {} ELSE
    LET n == st.net[e.net]
        w == Waiting(st, e.s)
    IN  IF e.ok
        THEN V("P04.overfull", n.sbuf = 0 \/ st.str[e.s].dst # 0 \/ ~Held(st, UidOfStream(st, e.s)) \/ w <= QCap(n.sbuf, n.blk) + st.str[e.s].slack)
        ELSE IF e.code # 0 THEN {}
        \* (another thread which is in the middle of sending may hold a block for a moment, or not have reported a
        \* message the queue has already; w0: the most which was waiting since the previous event of this sender)
        ELSE V("P04.refuses", n.sbuf > 0 /\ Max(w, st.str[e.s].w0) >= QMin(n.sbuf, n.blk) - Rivals(st, e.s) * n.blk)
SendUpd(st, e) ==
    IF e.ok
    THEN [st EXCEPT !.str[e.s].sent = e.i + e.n - 1,
                    !.str[e.s].called = Max(@, e.i + e.n - 1),
                    !.str[e.s].acc = IF st.str[e.s].rej > 0 THEN Put(@, e.i, st.str[e.s].rej + 1) ELSE @,
                    !.str[e.s].rej = 0]
    ELSE [st EXCEPT !.str[e.s].rej = @ + 1]

(***************************************************************************)
(* Connections                                                             *)
(***************************************************************************)
ConnViol(st, e) ==
    LET known == Has(st.conn, e.c)
        n == st.net[e.net]
        excused == st.anyfault \/ n.kind = "peer" \/ e.c \in st.termreq
        cause == \/ ~known \/ excused
                 \/ st.conn[e.c].ph = "down" \/ st.conn[e.c].uid = -1
                 \/ st.conn[e.c].uid \in st.dead \cup st.may
    IN  V("P08.loop", e.on) \cup V("P21.after", e.net \notin st.deleted) \cup
        IF e.up THEN
            V("P05.uponce", ~known) \cup
            (IF ~n.tls THEN {} ELSE
             IF e.rn > 0 THEN V("P07.cert", e.cert = st.net[e.rn].cert) \cup V("P07.plain", st.net[e.rn].tls)
             ELSE IF e.rr # 0 THEN V("P07.rogue", e.rt > 0 /\ e.cert = e.rt) ELSE {})
        ELSE
            V("P05.downonce", ~known \/ st.conn[e.c].ph # "down") \cup
            V("P05.cause", cause) \cup V("P01.cause", cause) \cup V("P02.cause", cause) \cup
            V("P06.reach", known \/ ~e.act \/ excused \/ n.tls
                          \/ e.port \in st.pm \/ (Has(st.slow, e.port) /\ st.slow[e.port] + 350 > n.cto) \/ e.port \notin st.lst \/ e.port \in st.unl)
ConnUpd(st, e) ==
    LET known == Has(st.conn, e.c)
        n == st.net[e.net]
    IN  IF e.up
        THEN [st EXCEPT !.conn = Put(@, e.c, [net |-> e.net, uid |-> e.uid, ph |-> "cb", act |-> e.act, ret |-> e.ret, was |-> TRUE]),
                        !.dead = IF (n.tls /\ ~e.ret) \/ e.c \in st.termreq THEN @ \cup ({e.uid} \ {-1}) ELSE @]
        ELSE [st EXCEPT !.conn = IF known THEN [@ EXCEPT ![e.c].ph = "down"]
                                 ELSE Put(@, e.c, [net |-> e.net, uid |-> -1, ph |-> "down", act |-> e.act, ret |-> TRUE, was |-> FALSE])]

Zero(st, e) == IF e.raw # 0 THEN st.raw[e.raw].uid ELSE UidOfConn(st, e.c)
ZeroUpd(st, e, ds, dr) == LET u == Zero(st, e)
                              o == IF Has(st.z0, u) THEN st.z0[u] ELSE [s |-> 0, r |-> 0]
                          IN  IF u = -1 THEN st ELSE [st EXCEPT !.z0 = Put(@, u, [s |-> o.s + ds, r |-> o.r + dr])]

Resolved(st, n) == Cardinality({c \in DOMAIN st.conn : st.conn[c].net = n /\ st.conn[c].act}) + Count(st.failed, n)

(* both ends of connection u are in a position to make progress *)
Moving(st, u) == /\ \E c \in DOMAIN st.conn : st.conn[c].uid = u /\ st.conn[c].ph = "up" /\ st.conn[c].ret
                 /\ u # -1 /\ u \notin st.dead \cup st.may \cup st.stalled /\ ~st.anyfault
                 /\ \A c \in DOMAIN st.conn : st.conn[c].uid = u => Live(st, st.conn[c].net)
                 /\ \A r \in DOMAIN st.raw : st.raw[r].uid = u => ~st.raw[r].hold

(***************************************************************************)
(* "quiet": nothing has moved for a while.  Whatever the system owes has   *)
(* to have happened by now (the liveness half of the properties).          *)
(***************************************************************************)
QuietViol(st, e) ==
    LET undelivered == {s \in DOMAIN st.str : st.str[s].dst = 0 /\ Moving(st, UidOfStream(st, s)) /\ st.str[s].next # st.str[s].sent + 1}
        unended == {c \in DOMAIN st.conn : st.conn[c].ph = "up" /\ Live(st, st.conn[c].net) /\ st.conn[c].uid \in st.dead \ st.stalled}
        up == {c \in DOMAIN st.conn : st.conn[c].ph \in {"cb", "up"} /\ st.conn[c].net \notin st.gone}
        lsn == {n \in DOMAIN st.net : st.net[n].lst /\ n \notin st.gone}
        trying == {n \in DOMAIN st.asked : Live(st, n) /\ ~IsPeer(st, n) /\ Resolved(st, n) < st.asked[n]}
        over == {n \in DOMAIN st.asked : Live(st, n) /\ ~IsPeer(st, n) /\ Resolved(st, n) > st.asked[n]}
        settled == /\ \A n \in DOMAIN st.net : (Live(st, n) \/ n \in st.gone) /\ ~IsPeer(st, n)
                   /\ trying = {} /\ ~st.anyfault /\ st.stalled = {} /\ ~st.hung
        allgone == DOMAIN st.net = st.deleted
        inup == {c \in up : st.conn[c].uid # -1}
    IN  V("P01.complete", undelivered = {}) \cup
        V("P01.emptycomplete", \A u \in DOMAIN st.z0 : Moving(st, u) => st.z0[u].s = st.z0[u].r) \cup
        V("P02.complete", undelivered = {}) \cup
        V("P03.complete", undelivered = {} \/ ~st.everp) \cup
        V("P04.complete", \A s \in undelivered : st.str[s].net = 0 \/ st.net[st.str[s].net].sbuf = 0) \cup
        V("P05.ended", unended = {}) \cup
        V("P02.ended", unended = {}) \cup
        V("P07.ended", \A c \in unended : ~st.net[st.conn[c].net].tls \/ st.conn[c].ret) \cup
        V("P05.badclose", e.badclose = 0) \cup V("P21.badclose", e.badclose = 0) \cup
        V("P05.leak", ~settled \/ e.socks = Cardinality(up) + Cardinality(lsn)) \cup
        V("P06.resolved", st.anyfault \/ st.hung \/ \A n \in trying : e.ms - st.lastcon <= (IF st.net[n].tls THEN 4500 ELSE st.net[n].cto + 400)) \cup
        V("P06.once", over = {}) \cup
        V("P21.released", ~allgone \/ (e.socks = 0 /\ e.fds = 0 /\ e.handles = 0 /\ e.conns = 0))

(* a paused receiver takes in no more than its configured buffers hold *)
AbsorbViol(st, e) ==
    LET u == st.raw[e.raw].uid
        C == {c \in DOMAIN st.conn : st.conn[c].uid = u}
        S == {s \in DOMAIN st.str : st.str[s].raw = e.raw}
        done == IF S = {} THEN 0 ELSE st.str[CHOOSE s \in S : TRUE].next - 1
    IN  IF C = {} THEN {} ELSE
        LET n == st.net[st.conn[CHOOSE c \in C : TRUE].net]
        IN  V("P03.bounded", e.b <= (QCap(n.qsize, n.blk) + 2 + done) * e.w + Max(n.rbuf, 2) * n.chunk)

(***************************************************************************)
Viol(st, e) ==
    CASE e.ev = "recv" -> RecvViol(st, e)
      [] e.ev = "recv0" -> V("P01.empty", Zero(st, e) # -1 => (Has(st.z0, Zero(st, e)) /\ st.z0[Zero(st, e)].r < st.z0[Zero(st, e)].s)) \cup IF e.raw # 0 THEN {} ELSE V("P08.loop", e.on) \cup V("P21.after", e.net \notin st.deleted) \cup V("P21.msgafter", e.net \notin st.ustop) \cup V("P05.early", Has(st.conn, e.c) /\ st.conn[e.c].ph \in {"up", "down"})
      [] e.ev = "send" -> SendViol(st, e)
      [] e.ev = "conn" -> ConnViol(st, e)
      [] e.ev = "err" -> V("P08.loop", e.on) \cup V("P21.after", e.net \notin st.deleted) \cup V("P02.fatal", ~e.fatal) \cup V("P01.fatal", ~e.fatal)
      [] e.ev = "neterr" -> V("P07.config", e.mismatch)
      [] e.ev = "net" -> V("P07.keycheck", ~e.mismatch)
      [] e.ev = "wireplain" -> V("P07.wire", \A c \in DOMAIN st.conn : st.conn[c].uid = e.uid => ~st.net[st.conn[c].net].tls)
      [] e.ev = "wirebad" -> {"P01.wire", "P02.wire"}
      [] e.ev = "rawend" -> V("P01.framing", e.how # "fin" \/ e.left = 0 \/ st.raw[e.raw].uid \in st.dead \cup st.may \/ st.anyfault)
      [] e.ev = "absorb" -> AbsorbViol(st, e)
      [] e.ev = "quiet" -> QuietViol(st, e)
      [] e.ev \in {"fatal", "crash", "hang"} -> {"P01.alive", "P02.alive", "P03.alive", "P04.alive", "P05.alive", "P06.alive", "P07.alive", "P08.alive", "P19.alive", "P21.alive"}
      [] OTHER -> {}

Upd(st, e) ==
    CASE e.ev = "net" -> [st EXCEPT !.net = Put(@, e.net, [kind |-> e.kind, tls |-> e.tls, cert |-> e.cert, sbuf |-> e.sbuf, qsize |-> e.qsize,
                                rbuf |-> e.rbuf, chunk |-> e.chunk, blk |-> e.blk, cto |-> e.ctoms, port |-> e.port, lst |-> FALSE])]
      [] e.ev = "listen" -> IF e.code # 0 THEN st ELSE [st EXCEPT !.net[e.net].lst = TRUE, !.lst = @ \cup {e.port}]
      [] e.ev = "listenc" -> [st EXCEPT !.unl = @ \cup (st.lst \cap {e.port})]
      [] e.ev = "rawlisten" -> IF e.on THEN [st EXCEPT !.lst = @ \cup {e.port}] ELSE [st EXCEPT !.lst = @ \ {e.port}, !.unl = @ \cup {e.port}]
      [] e.ev = "portmode" -> IF e.mode >= 100 THEN [st EXCEPT !.slow = Put(@, e.port, Max(e.mode, Count(@, e.port)))] ELSE [st EXCEPT !.pm = @ \cup {e.port}]
      [] e.ev = "connectc" -> [st EXCEPT !.asked = Put(@, e.net, Count(@, e.net) + 1), !.lastcon = e.ms,
                                       !.unl = IF e.port \in st.lst THEN @ ELSE @ \cup {e.port}]
      [] e.ev = "api" -> IF e.op # "connect" THEN st ELSE [st EXCEPT !.aids = Put(@, e.net, (IF Has(@, e.net) THEN @[e.net] ELSE {}) \cup {e.aid}),
                                       !.failed = Put(@, e.net, Count(@, e.net) + Count(st.early, <<e.net, e.aid>>))]
      [] e.ev = "connects" -> IF e.code = 0 THEN st ELSE [st EXCEPT !.failed = Put(@, e.net, Count(@, e.net) + 1)]
      [] e.ev = "err" -> IF Has(st.aids, e.net) /\ e.aid \in st.aids[e.net] THEN [st EXCEPT !.failed = Put(@, e.net, Count(@, e.net) + 1)]
                          ELSE IF e.aid < 0 THEN st ELSE [st EXCEPT !.early = Put(@, <<e.net, e.aid>>, Count(@, <<e.net, e.aid>>) + 1)]
      [] e.ev = "stream" -> [st EXCEPT !.str = Put(@, e.s, [net |-> e.net, c |-> e.c, raw |-> e.raw, dst |-> e.dst, slack |-> e.slack,
                                called |-> 0, sent |-> 0, next |-> 1, rej |-> 0, acc |-> <<>>, lim |-> 0, w0 |-> 0])]
      [] e.ev = "sendc" -> [st EXCEPT !.str[e.s].called = Max(@, e.upto), !.str[e.s].w0 = Waiting(st, e.s)]
      [] e.ev = "send" -> LET n == SendUpd(st, e)
                              w == Waiting(n, e.s)
                          IN  IF ~e.ok \/ Rivals(n, e.s) = 0 THEN [n EXCEPT !.str[e.s].w0 = w]
                              ELSE [n EXCEPT !.str = [x \in DOMAIN @ |-> IF x = e.s THEN [@[x] EXCEPT !.w0 = w]
                                                      ELSE IF @[x].c = @[e.s].c /\ @[x].raw = 0 THEN [@[x] EXCEPT !.w0 = Max(@, w)] ELSE @[x]]]
      [] e.ev = "sendd" -> [st EXCEPT !.str[e.s].sent = e.i]
      [] e.ev = "recv" -> RecvUpd(st, e)
      [] e.ev = "conn" -> ConnUpd(st, e)
      [] e.ev = "send0" -> ZeroUpd(st, e, 1, 0)
      [] e.ev = "recv0" -> ZeroUpd(st, e, 0, 1)
      [] e.ev = "connend" -> IF e.up /\ Has(st.conn, e.c) THEN [st EXCEPT !.conn[e.c].ph = IF @ = "cb" THEN "up" ELSE @] ELSE st
      [] e.ev = "term" -> [st EXCEPT !.termreq = @ \cup {e.c}, !.dead = @ \cup ({UidOfConn(st, e.c), e.uid} \ {-1})]
      [] e.ev \in {"rawconn", "rawacc"} -> [st EXCEPT !.raw = Put(@, e.raw, [uid |-> e.uid, hold |-> FALSE]),
                                !.hung = @ \/ (e.tls <= 0 /\ \E n \in DOMAIN st.net : st.net[n].tls)]
      [] e.ev = "rawact" -> IF e.a \in {"close", "rst"} THEN [st EXCEPT !.dead = @ \cup {st.raw[e.raw].uid}]
                            ELSE IF e.a = "hold" THEN [st EXCEPT !.raw[e.raw].hold = TRUE]
                            ELSE IF e.a = "unhold" THEN [st EXCEPT !.raw[e.raw].hold = FALSE]
                            ELSE [st EXCEPT !.may = @ \cup {st.raw[e.raw].uid}]
      [] e.ev = "rawbad" -> IF st.raw[e.raw].uid \in st.may THEN st
                            ELSE IF e.kind \in {"over", "poison"}
                            THEN [st EXCEPT !.dead = @ \cup {st.raw[e.raw].uid},
                                            !.str[e.s].lim = IF e.kind = "over" /\ @ = 0 THEN st.str[e.s].sent + 1 ELSE @]
                            ELSE IF e.kind = "part" THEN [st EXCEPT !.may = @ \cup {st.raw[e.raw].uid}]
                            ELSE st
      [] e.ev = "cut" -> IF e.how = 0 THEN [st EXCEPT !.stalled = @ \cup {e.uid}]
                         ELSE IF e.how = 1 THEN [st EXCEPT !.stalled = @ \ {e.uid}]
                         ELSE [st EXCEPT !.dead = @ \cup {e.uid}]
      [] e.ev = "inject" -> IF e.call = "socket" THEN st ELSE [st EXCEPT !.anyfault = TRUE]
      [] e.ev = "pause" -> [st EXCEPT !.paused = @ \cup {e.net}, !.everp = TRUE]
      [] e.ev = "resume" -> [st EXCEPT !.paused = @ \ {e.net}]
      [] e.ev = "loopend" -> [st EXCEPT !.paused = @ \cup {e.net}]
      [] e.ev \in {"stopc", "stopped", "delc"} -> [st EXCEPT !.gone = IF e.ev = "stopc" THEN @ ELSE @ \cup {e.net},
                                !.ustop = IF e.ev = "stopped" /\ e.u THEN @ \cup {e.net} ELSE @,
                                !.deleted = IF e.ev = "delc" THEN @ \cup {e.net} ELSE @,
                                !.dead = @ \cup UidsOf(st, e.net), !.unl = @ \cup {st.net[e.net].port}]

      [] OTHER -> st
=============================================================================
