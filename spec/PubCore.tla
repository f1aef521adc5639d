------------------------------ MODULE PubCore ------------------------------
(***************************************************************************)
(* The publisher, as a state record and total operators on it.             *)
(*                                                                         *)
(*   q     sequence of packets accepted and not yet multicast; announce-   *)
(*         ments (pid 0) ahead of data                                     *)
(*   inf   sequence of packets multicast and still owed to somebody        *)
(*   con   connection index -> [owed: packet numbers, out: stream,         *)
(*         cid, ip, port, old: the index was used before]                  *)
(*   next  the next packet number                                          *)
(*   sus, s, r   suspended?, suspend and resume thresholds                 *)
(*   iv, nx      announce interval (0: off), next announce time (0: none)  *)
(*                                                                         *)
(* A packet is [pid, len, h, b, cp]: b identifies the payload the          *)
(* application handed over, cp says that the library owns the payload (an  *)
(* announcement it made itself).                                           *)
(***************************************************************************)
EXTENDS Streams, FiniteSets, TLC

CONSTANTS RTO       \* resend timeout

Max0(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S)   == CHOOSE x \in S : \A y \in S : x <= y
Restrict(f, S) == [x \in S |-> f[x]]
NoFun == [x \in {} |-> 0]

PubInit == [q |-> <<>>, inf |-> <<>>, con |-> NoFun, next |-> 1, sus |-> FALSE, s |-> 0, r |-> 0, iv |-> 0, nx |-> 0]

\* ---- what is observable through the queries
PSentUnacked(p) == Len(p.inf)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOf(f, S \ {i})
POwedCount(p)   == SumOf([i \in DOMAIN p.con |-> Cardinality(p.con[i].owed)], DOMAIN p.con)
PSendBytes(p)   == SumOf([i \in DOMAIN p.con |-> Pending(p.con[i].out)], DOMAIN p.con)
PSendTime(p, pid) == LET k == CHOOSE k \in 1..Len(p.inf) : p.inf[k].pid = pid IN p.inf[k].ts
PNext(p) ==
    LET owed == UNION {p.con[i].owed : i \in DOMAIN p.con}
        ts   == {p.inf[k].ts + RTO : k \in {k \in 1..Len(p.inf) : p.inf[k].pid \in owed}}
             \cup (IF p.nx # 0 THEN {p.nx} ELSE {})
    IN  IF ts = {} THEN -1 ELSE MinOf(ts)

\* ---- after something is no longer owed: forget what nobody is owed, and resume suspended traffic
PSettle(p) ==
    LET owed == UNION {p.con[i].owed : i \in DOMAIN p.con}
        keep == SelectSeq(p.inf, LAMBDA k : k.pid \in owed)
        gone == SelectSeq(p.inf, LAMBDA k : k.pid \notin owed)
    IN  [p |-> [p EXCEPT !.inf = keep, !.sus = @ /\ (gone = <<>> \/ Len(keep) > p.r)], rel |-> gone]

\* ---- queueing
PQueue(p, k, ann) ==    \* k: a packet without number
    LET pk == [k EXCEPT !.pid = IF ann THEN 0 ELSE p.next]
        nann == Len(SelectSeq(p.q, LAMBDA x : x.pid = 0))
        q2 == IF ann THEN SubSeq(p.q, 1, nann) \o <<pk>> \o SubSeq(p.q, nann + 1, Len(p.q)) ELSE Append(p.q, pk)
    IN  IF p.sus THEN [p |-> p, busy |-> TRUE]
        ELSE [p |-> [p EXCEPT !.q = q2, !.next = IF ann THEN @ ELSE @ + 1,
                              !.sus = p.s > 0 /\ Len(p.inf) >= p.s],
              busy |-> FALSE]

\* ---- the multicast send of the first queued packet
PSend(p, now) ==
    LET pk == Head(p.q)  p1 == [p EXCEPT !.q = Tail(@)]
    IN  IF pk.pid = 0 \/ DOMAIN p.con = {}
        THEN [p |-> p1, rel |-> <<pk>>]
        ELSE [p |-> [p1 EXCEPT !.inf = Append(@, [pid |-> pk.pid, len |-> pk.len, h |-> pk.h, b |-> pk.b, cp |-> pk.cp, ts |-> now]),
                               !.con = [i \in DOMAIN @ |-> [@[i] EXCEPT !.owed = @ \cup {pk.pid}]]],
              rel |-> <<>>]

\* ---- connections
PAccept(p, i, cid, ip, port, old) ==
    [p EXCEPT !.con = (i :> [owed |-> {}, out |-> EmptyOut, cid |-> cid, ip |-> ip, port |-> port, old |-> old]) @@ @]
PClose(p, i) == PSettle([p EXCEPT !.con = Restrict(@, DOMAIN @ \ {i})])
PAck(p, i, lo, hi) == PSettle([p EXCEPT !.con[i].owed = {x \in @ : x < lo \/ x > hi}])
PWrote(p, i, n) == LET w == Wrote(p.con[i].out, n) IN [p |-> [p EXCEPT !.con[i].out = w.o], done |-> w.done]

\* ---- retransmission: what is due to connection i, lowest number first, as far as there is room
PDue(p, i, now) == SelectSeq(p.inf, LAMBDA k : k.pid \in p.con[i].owed /\ k.ts + RTO <= now)
RECURSIVE PResend(_, _, _, _)
PResend(p, i, due, hdr) ==      \* hdr: the node, ip and port fields of this publisher's headers
    IF due = <<>> THEN [p |-> p, full |-> FALSE]
    ELSE LET k == Head(due)
             c == [t |-> 1, pid |-> k.pid, len |-> k.len, h |-> k.h, node |-> hdr.node, ip |-> hdr.ip, port |-> hdr.port]
         IN  IF Room(p.con[i].out) < CmdSize(c) THEN [p |-> p, full |-> TRUE]
             ELSE PResend([p EXCEPT !.con[i].out = PutCmd(@, c), !.con[i].owed = @ \ {k.pid}], i, Tail(due), hdr)
RECURSIVE PResendAll(_, _, _, _)
PResendAll(p, S, now, hdr) ==
    IF S = {} THEN p
    ELSE LET i == CHOOSE i \in S : TRUE IN PResendAll(PResend(p, i, PDue(p, i, now), hdr).p, S \ {i}, now, hdr)
PTimeoutResend(p, now, hdr) == PSettle(PResendAll(p, DOMAIN p.con, now, hdr))

\* ---- announcements
PAnnounceDue(p, now) == p.iv # 0 /\ p.nx # 0 /\ p.nx <= now
PAnnounced(p, now) == [p EXCEPT !.nx = IF p.iv = 0 THEN 0 ELSE now + p.iv]
PSetInterval(p, iv, now) == [p EXCEPT !.iv = iv, !.nx = IF iv = 0 THEN 0 ELSE IF @ = 0 THEN now + iv ELSE @]

\* ---- throttling
PThrottle(p, s, r) ==
    IF s < r THEN [p |-> p, ok |-> FALSE]
    ELSE [p |-> [p EXCEPT !.s = s, !.r = r, !.sus = @ /\ s > 0 /\ Len(p.inf) > r], ok |-> TRUE]

\* ---- invariants of the record itself
PubInv(p) ==
    /\ \A a, b \in 1..Len(p.inf) : a < b => p.inf[a].pid < p.inf[b].pid
    /\ \A k \in 1..Len(p.inf) : p.inf[k].pid > 0 /\ p.inf[k].pid < p.next /\ \E i \in DOMAIN p.con : p.inf[k].pid \in p.con[i].owed
    /\ \A i \in DOMAIN p.con : p.con[i].owed \subseteq {p.inf[k].pid : k \in 1..Len(p.inf)} /\ Pending(p.con[i].out) \in 0..CAP
    /\ LET d == SelectSeq(p.q, LAMBDA x : x.pid # 0)
       IN  \A a \in 1..Len(d) : d[a].pid = p.next - Len(d) + a - 1
    /\ \A a, b \in 1..Len(p.q) : a < b /\ p.q[b].pid = 0 => p.q[a].pid = 0
    /\ p.sus => p.s > 0 /\ (Len(p.inf) > p.r \/ Len(p.inf) >= p.s)
=============================================================================
