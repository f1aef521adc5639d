------------------------------- MODULE PubGen -------------------------------
(***************************************************************************)
(* One publisher with NS scripted subscribers and at most W data packets:  *)
(* every state of PubCore up to the bounds, with every thing that can      *)
(* happen in it (see SubGen).  S and R are the throttling thresholds.      *)
(***************************************************************************)
EXTENDS PubCore, Json

CONSTANTS NS, W, MAXQ, MAXOUT, S, R, ANN

VARIABLES p, now
vars == <<p, now>>
TICK == RTO \div 2
HDR0 == [node |-> 0, ip |-> "", port |-> 0]

Con(i) == i \in DOMAIN p.con
Out(i) == p.con[i].out
CmdLen(i) == CmdSize(Out(i).q[1])
Data == Len(SelectSeq(p.q, LAMBDA x : x.pid # 0))
RECURSIVE SendAll(_)
SendAll(x) == IF x.q = <<>> THEN x ELSE SendAll(PSend(x, now).p)
Timeout == IF PAnnounceDue(p, now) THEN PAnnounced(PQueue(p, [pid |-> 0, len |-> 4, h |-> 0, b |-> 0, cp |-> TRUE], TRUE).p, now)
           ELSE PTimeoutResend(p, now, HDR0).p

O(o, i, a, b) == [o |-> o, i |-> i, a |-> a, b |-> b]
Moves ==
    {<<O("q", 0, 0, 0), IF p.next > W /\ ~p.sus THEN p ELSE PQueue(p, [pid |-> 0, len |-> 3, h |-> 0, b |-> 0, cp |-> FALSE], FALSE).p>> : x \in {x \in {1} : p.next <= W \/ p.sus}}
    \cup {<<O("wm", 0, 0, 0), SendAll(p)>>, <<O("tm", 0, 0, 0), Timeout>>}
    \cup {<<O("we", 0, j, 0), IF j = 1 THEN p ELSE PSend(p, now).p>> : j \in {j \in 1..2 : Len(p.q) >= j}}      \* the j-th send would block
    \cup {<<O("wx", 0, 1, 0), p>> : x \in {x \in {1} : p.q # <<>>}}                                             \* the send fails
    \cup UNION { IF ~Con(i) THEN {<<O("rc", i, 0, 0), PAccept(p, i, i, "r", i, FALSE)>>}
                 ELSE {<<O("ra", i, r[1], r[2]), PAck(p, i, r[1], r[2]).p>> : r \in {r \in (1..W) \X (1..W) : r[1] <= r[2]} \cup {<<1, W + 3>>, <<2, 1>>}}
                      \cup {<<O(o, i, 0, 0), PClose(p, i).p>> : o \in {"cl", "pc", "bb"}}
                      \cup (IF Out(i).q = <<>> THEN {} ELSE {<<O("wt", i, 0, 0), PWrote(p, i, Pending(Out(i))).p>>}
                                \cup (IF Out(i).off = 0 THEN {<<O("wp", i, CmdLen(i) - 1, 0), PWrote(p, i, CmdLen(i) - 1).p>>} ELSE {}))
               : i \in 1..NS }
    \cup (IF ANN THEN {<<O("ai", 0, 0, 0), PSetInterval(p, 0, now)>>, <<O("ai", 0, RTO, 0), PSetInterval(p, RTO, now)>>} ELSE {})
Fits(z) == Len(z.q) <= MAXQ /\ \A i \in DOMAIN z.con : Len(z.con[i].out.q) <= MAXOUT

Cut(x) == IF x > RTO THEN RTO ELSE x
View2(z, n) == <<[j \in 1..Len(z.q) |-> z.q[j].pid], [j \in 1..Len(z.inf) |-> <<z.inf[j].pid, Cut(n - z.inf[j].ts)>>], z.next, z.sus, z.iv, IF z.nx = 0 THEN -1 ELSE IF z.nx <= n THEN 0 ELSE z.nx - n,
                [i \in 1..NS |-> IF i \in DOMAIN z.con THEN <<z.con[i].owed, [j \in 1..Len(z.con[i].out.q) |-> z.con[i].out.q[j].pid], z.con[i].out.off>> ELSE <<>>]>>
View == View2(p, now)
Edge(op, z, n) == PrintT("@@" \o ToJson(<<ToString(View), ToString(View2(z, n)), op>>))
Init == p = [PubInit EXCEPT !.s = S, !.r = R] /\ now = 0
Next == \/ \E m \in Moves : Fits(m[2]) /\ p' = m[2] /\ now' = now /\ Edge(m[1], m[2], now)
        \/ /\ (\E j \in 1..Len(p.inf) : now - p.inf[j].ts < RTO) \/ p.nx > now
           /\ p' = p /\ now' = now + TICK /\ Edge(O("tk", 0, TICK, 0), p, now + TICK)
Spec == Init /\ [][Next]_vars

\* nothing is owed to nobody; a timeout run with room leaves nothing due behind, and touches nothing that is not due
DueInv == \A i \in DOMAIN p.con : LET t == PTimeoutResend(p, now, HDR0).p IN
             /\ \A k \in 1..Len(p.inf) : p.inf[k].pid \in p.con[i].owed => ((p.inf[k].ts + RTO <= now) <=> p.inf[k].pid \notin t.con[i].owed)
             /\ LET new == SubSeq(t.con[i].out.q, Len(Out(i).q) + 1, Len(t.con[i].out.q)) IN \A a, b \in 1..Len(new) : a < b => new[a].pid < new[b].pid
SusInv == p.sus => S > 0 /\ Len(p.inf) > 0
Inv == PubInv(p) /\ DueInv /\ SusInv
=============================================================================
