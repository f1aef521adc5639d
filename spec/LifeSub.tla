------------------------------- MODULE LifeSub -------------------------------
(***************************************************************************)
(* The life of one subscriber: activation, of which every step can fail,   *)
(* announcements of NP scripted publishers that the application wants or   *)
(* does not want, connections up to the maximum, failures at every step of *)
(* setting one up, connections that end in every way, with packets held    *)
(* back and packets not yet taken by the application, deactivation and     *)
(* activation again, and datagrams that are no packets in every state.     *)
(*                                                                         *)
(* The packets are those of SubCore.  What is added here is the open       *)
(* descriptors, what is registered with polling, and the payload buffers.  *)
(***************************************************************************)
EXTENDS SubCore, Json

CONSTANTS NP, MAX, MAXREADY, BAD        \* BAD: how many kinds of datagrams that are no packets

VARIABLES s, on, open, reg,
          buf       \* payload buffers allocated and not given back, and not the application's: [c, pid]
vars == <<s, on, open, reg, buf>>

R2(f, S) == [x \in S |-> f[x]]
M == 100     \* the multicast descriptor
Con(i) == i \in DOMAIN s.con
Est(i) == Con(i) /\ s.con[i].m = "established"
Full   == Cardinality(DOMAIN s.con) = MAX
Same == [s |-> s, on |-> on, open |-> open, reg |-> reg, buf |-> buf]
Poll(z) == [z EXCEPT !.reg = [d \in DOMAIN @ |-> IF d = M THEN {"r"} ELSE IF z.s.con[d].m = "connecting" THEN {"w"} ELSE {"r"}]]

Steps == <<"socket", "reuse", "buffer", "bind", "join", "loop">>
Activate(k) == IF on \/ k > 0 THEN Same ELSE Poll([Same EXCEPT !.on = TRUE, !.open = @ \cup {M}, !.reg = (M :> {"r"}) @@ @])
Pkt(i, x) == [pid |-> x, len |-> 3, h |-> 0, b |-> 0, c |-> i]
End(z, i) == LET c == SClose(z.s, i) IN
    Poll([z EXCEPT !.s = c.s, !.open = @ \ {i}, !.reg = [x \in DOMAIN @ \ {i} |-> @[x]], !.buf = {b \in @ : ~(\E h \in c.rel : h.c = b.c /\ h.pid = b.pid)}])
RECURSIVE EndAll(_, _)
EndAll(z, T) == IF T = {} THEN z ELSE LET i == CHOOSE i \in T : TRUE IN EndAll(End(z, i), T \ {i})
Down(y) ==       \* packets not yet taken are given up with everything else
    LET z == EndAll(y, DOMAIN y.s.con) IN [s |-> SubInit, on |-> FALSE, open |-> z.open \ {M}, reg |-> <<>>, buf |-> {b \in z.buf : ~(\E j \in 1..Len(z.s.ready) : z.s.ready[j].c = b.c /\ z.s.ready[j].pid = b.pid)}]
Deactivate == Down(Same)
Connect(i) == Poll([Same EXCEPT !.s = SConnect(@, i, i, "r", i, i, FALSE), !.open = @ \cup {i}, !.reg = (i :> {"w"}) @@ @])
Receive(i, x) == IF ~Est(i) THEN Same
                 ELSE LET z == SReceive(s, i, Pkt(i, x), 0, FALSE) IN
                      [Same EXCEPT !.s = z.s, !.buf = IF z.new THEN @ \cup {[c |-> i, pid |-> x]} ELSE @]
\* a packet of an earlier connection of the same publisher may still be untaken: its number would clash, which the model avoids
Clash(i, x) == \E b \in buf : b.c = i /\ b.pid = x /\ ~SDuplicate(s.con[i], x)

O(o, i, x) == [o |-> o, i |-> i, p |-> x]
Moves ==
    {<<O("act", 0, 0), Activate(0)>>, <<O("deact", 0, 0), Deactivate>>, <<O("cx", 0, 0), Same>>}
    \cup {<<O("af", k, 0), Activate(k)>> : k \in {k \in 1..Len(Steps) : ~on}}
    \cup (IF ~on THEN {}
          ELSE {<<O("bd", k, i), Same>> : k \in 1..BAD, i \in 1..NP}
               \cup {<<O(o, i, 0), IF Con(i) \/ Full \/ o # "an" THEN Same ELSE Connect(i)>> : o \in {"an", "aN", "aX"}, i \in 1..NP}
               \cup {<<O("wc", i, 0), Poll([Same EXCEPT !.s = SComplete(@, i)])>> : i \in {i \in DOMAIN s.con : ~Est(i)}}
               \cup {<<O("wf", i, 0), End(Same, i)>> : i \in {i \in DOMAIN s.con : ~Est(i)}}
               \cup {<<O("cl", i, 0), End(Same, i)>> : i \in DOMAIN s.con}
               \cup {<<O(o, i, 0), End(Same, i)>> : o \in {"pc", "rs", "bb", "bl"}, i \in {i \in DOMAIN s.con : Est(i)}}
               \cup UNION {{<<O("mc", i, x), Receive(i, x)>> : x \in {x \in {1, 2, 4} : Est(i) => ~Clash(i, x)}} : i \in 1..NP})
    \cup (IF s.ready = <<>> THEN {}
          ELSE {<<O("d", 0, 0), [Same EXCEPT !.s = SDispatch(@), !.buf = @ \ {[c |-> Head(s.ready).c, pid |-> Head(s.ready).pid]}]>>})
    \* calls that the application makes from within a callback have the same effect as right after it
    \cup {<<O("nw", i, 0), End(Same, i)>> : i \in {i \in DOMAIN s.con : ~Est(i)}}                         \* the completion callback closes the connection
    \cup {<<O("nxw", i, 0), Deactivate>> : i \in {i \in DOMAIN s.con : ~Est(i)}}                            \* ... deactivates the context
    \cup {<<O("nxa", i, 0), Deactivate>> : i \in {i \in 1..NP : on /\ ~Con(i)}}                           \* the announcement callback does: no connection
    \cup UNION {{<<O("na", i, j), LET z == End(Same, j) IN Poll([z EXCEPT !.s = SConnect(@, i, i, "r", i, i, FALSE), !.open = @ \cup {i}, !.reg = (i :> {"w"}) @@ @])>>
                    : j \in DOMAIN s.con} : i \in {i \in 1..NP : on /\ ~Con(i)}}                          \* the announcement callback closes another one
    \cup UNION {LET z == Receive(i, x)  h == Head(z.s.ready) IN
                 IF Len(z.s.ready) = Len(s.ready) THEN {}
                 ELSE {<<O("nd", i, x), [z EXCEPT !.s = SDispatch(@), !.buf = @ \ {[c |-> h.c, pid |-> h.pid]}]>>,        \* the ready callback takes a packet
                       <<O("nC", i, x), End(z, i)>>, <<O("nT", i, x), End(z, i)>>,
                       <<O("nxr", i, x), Down(z)>>, <<O("nxt", i, x), Down(z)>>}                           \* ... closes the connection, or deactivates; T, t: the packet comes by TCP
                 : <<i, x>> \in {y \in (DOMAIN s.con) \X {1, 2, 4} : Est(y[1]) /\ ~Clash(y[1], y[2])}}
Fits(z) == Len(z.s.ready) <= MAXREADY

ConView(c) == <<c.m, c.base, c.nxt, DOMAIN c.held>>
View2(z) == <<z.on, [i \in 1..NP |-> IF i \in DOMAIN z.s.con THEN ConView(z.s.con[i]) ELSE <<>>], [j \in 1..Len(z.s.ready) |-> <<z.s.ready[j].c, z.s.ready[j].pid>>]>>
View == View2(Same)
Edge(op, z) == PrintT("@@" \o ToJson(<<ToString(View), ToString(View2(z)), op>>))
Init == s = SubInit /\ on = FALSE /\ open = {} /\ reg = <<>> /\ buf = {}
Next == \E m \in Moves : LET z == m[2] IN
            /\ Fits(z)
            /\ s' = z.s /\ on' = z.on /\ open' = z.open /\ reg' = z.reg /\ buf' = z.buf
            /\ Edge(m[1], z)
Spec == Init /\ [][Next]_vars

DescInv == DOMAIN reg = open /\ open = DOMAIN s.con \cup (IF on THEN {M} ELSE {}) /\ (~on => open = {})
CapInv  == Cardinality(DOMAIN s.con) <= MAX
PollInv == \A d \in DOMAIN reg : reg[d] = IF d = M \/ s.con[d].m = "established" THEN {"r"} ELSE {"w"}
\* exactly one buffer for every packet that is held back or available
BufInv  == buf = UNION {{[c |-> i, pid |-> x] : x \in DOMAIN s.con[i].held} : i \in DOMAIN s.con} \cup {[c |-> s.ready[j].c, pid |-> s.ready[j].pid] : j \in 1..Len(s.ready)}
Inv == SubInv(s) /\ DescInv /\ CapInv /\ PollInv /\ BufInv
=============================================================================
