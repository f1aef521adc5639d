------------------------------ MODULE SubCore ------------------------------
(***************************************************************************)
(* The subscriber, as a state record and total operators on it.            *)
(*                                                                         *)
(*   con    connection index -> [m: "connecting" or "established",         *)
(*            ip, port, node: the publisher's control address and node id, *)
(*            base: number of the first packet received (0: none yet),     *)
(*            nxt: the next packet number to become available,             *)
(*            held: packets received and held back (number -> packet),     *)
(*            ack: numbers to acknowledge (number -> receive time),        *)
(*            out: stream, cid, old: the index was used before]            *)
(*   ready  sequence of packets available to the application               *)
(*                                                                         *)
(* A packet is [pid, len, h, b, c]: b identifies the payload buffer, c the *)
(* connection it came from.                                                *)
(***************************************************************************)
EXTENDS Streams, FiniteSets, TLC
SX == INSTANCE SequencesExt

CONSTANTS ATO       \* acknowledgement timeout

LOCAL MinOf(S)   == CHOOSE x \in S : \A y \in S : x <= y
LOCAL Restrict(f, S) == [x \in S |-> f[x]]
LOCAL NoFun == [x \in {} |-> 0]

SubInit == [con |-> NoFun, ready |-> <<>>]

Established(s) == {i \in DOMAIN s.con : s.con[i].m = "established"}
ConOf(s, ip, port) == {i \in DOMAIN s.con : s.con[i].ip = ip /\ s.con[i].port = port}

\* ---- connections
SConnect(s, i, cid, ip, port, node, old) ==
    [s EXCEPT !.con = (i :> [m |-> "connecting", cid |-> cid, ip |-> ip, port |-> port, node |-> node, base |-> 0, nxt |-> 0,
                             held |-> NoFun, ack |-> NoFun, out |-> EmptyOut, old |-> old]) @@ @]
SComplete(s, i) == [s EXCEPT !.con[i].m = "established"]
SClose(s, i) ==     \* rel: the packets that were held back
    [s |-> [s EXCEPT !.con = Restrict(@, DOMAIN @ \ {i})], rel |-> {s.con[i].held[x] : x \in DOMAIN s.con[i].held}]
SWrote(s, i, n) == LET w == Wrote(s.con[i].out, n) IN [s |-> [s EXCEPT !.con[i].out = w.o], done |-> w.done]

\* ---- reception
SDuplicate(c, pid) == c.base # 0 /\ (pid < c.nxt \/ pid \in DOMAIN c.held)
RECURSIVE Run(_, _)
Run(held, n) == IF n \in DOMAIN held THEN <<held[n]>> \o Run(held, n + 1) ELSE <<>>
SReceive(s, i, pk, now, tcp) ==
    LET c == s.con[i]
    IN  IF SDuplicate(c, pk.pid) THEN [s |-> s, new |-> FALSE, inc |-> FALSE]
        ELSE LET h1  == (pk.pid :> pk) @@ c.held
                 n0  == IF c.base = 0 THEN pk.pid ELSE c.nxt
                 run == Run(h1, n0)
                 c1  == [c EXCEPT !.base = IF @ = 0 THEN pk.pid ELSE @,
                                  !.nxt = n0 + Len(run),
                                  !.held = Restrict(h1, {x \in DOMAIN h1 : x >= n0 + Len(run)}),
                                  !.ack = IF tcp THEN @ ELSE (pk.pid :> now) @@ @]
             IN  [s |-> [s EXCEPT !.con[i] = c1, !.ready = @ \o run], new |-> TRUE, inc |-> run # <<>>]
SDispatch(s) == [s EXCEPT !.ready = Tail(@)]

\* ---- acknowledgements: the minimal set of intervals that covers S exactly, ascending
Ascending(S) == SX!SetToSortSeq(S, LAMBDA x, y : x < y)
Intervals(S) ==
    LET los == Ascending({x \in S : x - 1 \notin S})
        his == Ascending({x \in S : x + 1 \notin S})
    IN  [i \in 1..Len(los) |-> [lo |-> los[i], hi |-> his[i]]]
SOldest(c) == MinOf({c.ack[x] : x \in DOMAIN c.ack})
SAckDue(c, now) == DOMAIN c.ack # {} /\ SOldest(c) + ATO <= now
SAcks(c, ivs) ==    \* as many of them, in order, as there is room for
    LET n == MinOf({Len(ivs), Room(c.out) \div ACKSZ})
        a == [i \in 1..n |-> [t |-> 2, lo |-> ivs[i].lo, hi |-> ivs[i].hi]]
    IN  IF n = 0 THEN c
        ELSE [c EXCEPT !.out.q = @ \o a, !.ack = Restrict(@, {x \in DOMAIN @ : x > ivs[n].hi})]
STimeout(s, now) ==
    [s EXCEPT !.con = [i \in DOMAIN @ |-> IF SAckDue(@[i], now) THEN SAcks(@[i], Intervals(DOMAIN @[i].ack)) ELSE @[i]]]
SNext(s) ==
    LET ts == {SOldest(s.con[i]) + ATO : i \in {i \in DOMAIN s.con : DOMAIN s.con[i].ack # {}}}
    IN  IF ts = {} THEN -1 ELSE MinOf(ts)

\* ---- control messages (an extra byte of room is asked for)
SControl(s, i, len, h) ==
    IF Room(s.con[i].out) < CTLHDR + len + 1 THEN [s |-> s, ok |-> FALSE]
    ELSE [s |-> [s EXCEPT !.con[i].out = PutCmd(@, [t |-> 3, len |-> len, h |-> h])], ok |-> TRUE]

\* ---- invariants of the record itself
SubInv(s) ==
    \A i \in DOMAIN s.con : LET c == s.con[i] IN
        /\ (c.base = 0) = (c.nxt = 0)
        /\ c.base <= c.nxt
        /\ \A x \in DOMAIN c.held : x > c.nxt
        /\ \A x \in DOMAIN c.ack : x >= c.base /\ (x < c.nxt \/ x \in DOMAIN c.held)
        /\ Pending(c.out) \in 0..CAP
        /\ c.m = "connecting" => c.base = 0 /\ c.out = EmptyOut
=============================================================================
