------------------------------- MODULE SubGen -------------------------------
(***************************************************************************)
(* One subscriber with NP scripted publishers, packet numbers 1..W on each *)
(* connection: every state of SubCore up to the bounds, with every thing   *)
(* that can happen in it.  TLC enumerates it, checks the invariants and    *)
(* prints the transitions; tools/models.py turns them into scenarios for   *)
(* the real library, whose traces Conform.tla then checks, so that every   *)
(* transition of this graph is taken by the real subscriber.               *)
(***************************************************************************)
EXTENDS SubCore, Json

CONSTANTS NP, W, MAXREADY, MAXOUT, CTL,
          TICK,     \* how far time moves at once
          NOT       \* operations left out

VARIABLES s, now
vars == <<s, now>>

Con(i) == i \in DOMAIN s.con
Est(i) == Con(i) /\ s.con[i].m = "established"
Pkt(i, p) == [pid |-> p, len |-> 3, h |-> 0, b |-> 0, c |-> i]
Recv(i, p, tcp) == SReceive(s, i, Pkt(i, p), now, tcp).s
Closed(i) == SClose(s, i).s
CmdLen(i) == IF s.con[i].out.q = <<>> THEN 0 ELSE CmdSize(s.con[i].out.q[1])

O(o, i, p) == [o |-> o, i |-> i, p |-> p]
\* every operation with the state it leads to
Moves ==
    UNION { (IF ~Con(i) THEN {<<O("an", i, 0), SConnect(s, i, i, "r", i, i, FALSE)>>} ELSE {<<O("an", i, 0), s>>})
            \cup (IF Con(i) /\ ~Est(i) THEN {<<O("wc", i, 0), SComplete(s, i)>>, <<O("wf", i, 0), Closed(i)>>} ELSE {})
            \cup {<<O("mc", i, p), IF Est(i) THEN Recv(i, p, FALSE) ELSE s>> : p \in 1..W}
            \cup (IF ~Est(i) THEN {} ELSE
                      {<<O("tc", i, p), Recv(i, p, TRUE)>> : p \in 1..W}
                      \cup {<<O(o, i, 0), Closed(i)>> : o \in {"cl", "pc", "bb"}}
                      \cup (IF s.con[i].out.q = <<>> THEN {} ELSE {<<O("wr", i, 0), SWrote(s, i, Pending(s.con[i].out)).s>>}
                                \cup (IF s.con[i].out.off = 0 THEN {<<O("wp", i, CmdLen(i) - 2), SWrote(s, i, CmdLen(i) - 2).s>>} ELSE {}))
                      \cup (IF CTL THEN {<<O("ct", i, 0), SControl(s, i, 2, 0).s>>} ELSE {}))
          : i \in 1..NP }
    \cup (IF s.ready # <<>> THEN {<<O("d", 0, 0), SDispatch(s)>>, <<O("dk", 0, 0), SDispatch(s)>>} ELSE {})
    \cup {<<O("tm", 0, 0), STimeout(s, now)>>}
Fits(z) == Len(z.ready) <= MAXREADY /\ \A i \in DOMAIN z.con : Len(z.con[i].out.q) <= MAXOUT

Age(c, n, x) == LET a == n - c.ack[x] IN IF a > ATO THEN ATO ELSE a
ConView(c, n) == <<c.m, c.base, c.nxt, DOMAIN c.held, {<<x, Age(c, n, x)>> : x \in DOMAIN c.ack}, c.out.off, [j \in 1..Len(c.out.q) |-> c.out.q[j].t]>>
View2(z, n) == <<[i \in 1..NP |-> IF i \in DOMAIN z.con THEN ConView(z.con[i], n) ELSE <<>>], [j \in 1..Len(z.ready) |-> z.ready[j].c]>>
View == View2(s, now)

Edge(op, z, n) == PrintT("@@" \o ToJson(<<ToString(View), ToString(View2(z, n)), op>>))
Init == s = SubInit /\ now = 0
Next == \/ \E m \in {m \in Moves : m[1].o \notin NOT} : Fits(m[2]) /\ s' = m[2] /\ now' = now /\ Edge(m[1], m[2], now)
        \/ /\ \E i \in DOMAIN s.con : \E x \in DOMAIN s.con[i].ack : Age(s.con[i], now, x) < ATO
           /\ s' = s /\ now' = now + TICK /\ Edge(O("tk", 0, TICK), s, now + TICK)
Spec == Init /\ [][Next]_vars

\* what a timeout run owes: everything unacknowledged is due at once when the oldest receipt is, and nothing otherwise
AckInv == \A i \in DOMAIN s.con : LET c == s.con[i]  t == STimeout(s, now).con[i] IN
             IF DOMAIN c.ack # {} /\ \E x \in DOMAIN c.ack : now - c.ack[x] >= ATO
             THEN t.ack = <<>> /\ t.out.q = c.out.q \o [j \in 1..Len(Intervals(DOMAIN c.ack)) |-> [t |-> 2, lo |-> Intervals(DOMAIN c.ack)[j].lo, hi |-> Intervals(DOMAIN c.ack)[j].hi]]
             ELSE t = c
\* the emitted intervals are disjoint, not adjacent, ascending, and cover exactly what is to be acknowledged
IvInv == \A i \in DOMAIN s.con : LET S == DOMAIN s.con[i].ack  iv == Intervals(S) IN
             /\ UNION {iv[j].lo..iv[j].hi : j \in 1..Len(iv)} = S
             /\ \A j \in 1..(Len(iv) - 1) : iv[j].hi + 1 < iv[j + 1].lo
\* of the packets available to the application, those of the current connection are the last ones, consecutive, up to the highest handed over
OrderInv == \A i \in DOMAIN s.con : LET r == SelectSeq(s.ready, LAMBDA x : x.c = i)
                                       c == s.con[i]
                                   IN  \A j \in 0..(Len(r) - 1) : j < c.nxt - c.base => r[Len(r) - j].pid = c.nxt - 1 - j
Inv == SubInv(s) /\ AckInv /\ IvInv /\ OrderInv
=============================================================================
