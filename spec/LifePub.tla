------------------------------- MODULE LifePub -------------------------------
(***************************************************************************)
(* The life of one publisher: activation, of which every step can fail,    *)
(* subscribers that wait for being accepted, acceptance up to the maximum, *)
(* refusal by the application, failures while a connection is set up,      *)
(* connections that end in every way, deactivation and activation again.   *)
(* NS scripted subscribers, MAX connections, up to W packets in flight.    *)
(*                                                                         *)
(* The packets are those of PubCore.  What is added here is the open       *)
(* descriptors, and what is registered with the application's polling.     *)
(* TLC enumerates everything, checks the invariants and prints the         *)
(* transitions, which are replayed in the real library (see SubGen).       *)
(***************************************************************************)
EXTENDS PubCore, Json

CONSTANTS NS, MAX, W

VARIABLES p,        \* PubCore
          on,       \* activated
          bl,       \* subscribers waiting for being accepted
          open,     \* descriptors: M, L and the subscribers' numbers
          reg       \* registered: descriptor -> interest, a set of "r" and "w"
vars == <<p, on, bl, open, reg>>

M == 100     \* the multicast descriptor
L == 101     \* the listening descriptor
Con(i) == i \in DOMAIN p.con
Full   == Cardinality(DOMAIN p.con) = MAX
State(pp, o, b, op, rg) == [p |-> pp, on |-> o, bl |-> b, open |-> op, reg |-> rg]
Same == State(p, on, bl, open, reg)
\* interests follow the packets
Poll(z) == [z EXCEPT !.reg = [d \in DOMAIN @ |-> CASE d = M -> IF z.p.q = <<>> THEN {} ELSE {"w"}
                                                   [] OTHER -> {"r"}]]

\* activation: the steps, and what remains open if step k fails (0: none does)
Steps == <<"socket m", "interface", "socket l", "reuse address", "reuse port", "bind", "listen">>
Opens(j) == CASE Steps[j] = "socket m" -> {M} [] Steps[j] = "socket l" -> {L} [] OTHER -> {}
RECURSIVE Run(_, _, _)
Run(d, j, k) == IF j > Len(Steps) THEN d ELSE IF j = k THEN {} ELSE Run(d \cup Opens(j), j + 1, k)
Activate(k) ==
    IF on THEN Same
    ELSE LET d == Run({}, 1, k) IN
         IF d = {} THEN Same ELSE Poll(State(p, TRUE, bl, open \cup d, (M :> {}) @@ (L :> {"r"}) @@ reg))

End(z, i) == Poll([z EXCEPT !.p = PClose(z.p, i).p, !.open = @ \ {i}, !.reg = Restrict(@, DOMAIN @ \ {i})])
RECURSIVE EndAll(_, _)
EndAll(z, T) == IF T = {} THEN z ELSE LET i == CHOOSE i \in T : TRUE IN EndAll(End(z, i), T \ {i})
Down(y) ==       \* those still waiting lose their connection
    LET z == EndAll(y, DOMAIN y.p.con) IN [z EXCEPT !.on = FALSE, !.bl = <<>>, !.open = @ \ {M, L}, !.reg = NoFun]
Deactivate == Down(Same)
Admit == LET i == Head(bl) IN
         Poll(State(PAccept(p, i, i, "r", i, FALSE), on, Tail(bl), open \cup {i}, (i :> {"r"}) @@ reg))
RECURSIVE SendAll(_)
SendAll(x) == IF x.q = <<>> THEN x ELSE SendAll(PSend(x, 0).p)

\* calls that the application makes from within a callback have the same effect as right after it
Queue(z) == Poll([z EXCEPT !.p = PQueue(@, [pid |-> 0, len |-> 3, h |-> 0, b |-> 0, cp |-> FALSE], FALSE).p])
O(o, i) == [o |-> o, i |-> i, j |-> 0]
O2(o, i, j) == [o |-> o, i |-> i, j |-> j]
SeqToSet(q) == {q[j] : j \in 1..Len(q)}
Moves ==
    {<<O("act", 0), Activate(0)>>, <<O("deact", 0), Deactivate>>, <<O("cx", 0), Same>>, <<O("ttl", 0), Same>>}
    \cup {<<O("af", k), Activate(k)>> : k \in {k \in 1..Len(Steps) : ~on}}
    \cup {<<O("rc", i), [Same EXCEPT !.bl = Append(@, i)]>> : i \in {i \in 1..NS : on /\ ~Con(i) /\ i \notin SeqToSet(bl)}}
    \cup (IF ~on \/ bl = <<>> THEN {}
          ELSE IF Full THEN {<<O("ac", 0), Same>>}
          ELSE {<<O("ac", 0), Admit>>, <<O("ar", 0), End(Admit, Head(bl))>>,
                <<O("ax", 0), Same>>,                                       \* accept fails
                <<O("as", 0), [Same EXCEPT !.bl = Tail(@)]>>})              \* setting up the accepted connection fails
    \cup {<<O(o, i), End(Same, i)>> : o \in {"cl", "pc", "rs", "bb", "bl"}, i \in DOMAIN p.con}       \* bb, bl: it breaks the protocol
    \cup {<<O("ri", i), Same>> : i \in DOMAIN p.con}                   \* an inverted range, or one of numbers not sent yet
    \cup {<<O("ra", i), Poll([Same EXCEPT !.p = PAck(@, i, 1, 100).p])>> : i \in DOMAIN p.con}
    \cup {<<O("q", 0), Queue(Same)>>}
    \cup {<<O("nq", i), Queue(Same)>> : i \in DOMAIN p.con}                 \* the control callback queues a packet
    \cup {<<O2("nc", i, j), End(Same, j)>> : i \in DOMAIN p.con, j \in DOMAIN p.con}     \* ... closes a connection, its own or another
    \cup {<<O("nx", i), Deactivate>> : i \in DOMAIN p.con}                 \* ... deactivates the context
    \cup {<<O("dq", i), Queue(End(Same, i))>> : i \in DOMAIN p.con}         \* the disconnect callback queues a packet
    \cup {<<O2("dc", y[1], y[2]), End(End(Same, y[1]), y[2])>> : y \in {y \in (DOMAIN p.con) \X (DOMAIN p.con) : y[1] # y[2]}}      \* ... closes another connection
    \cup (IF on /\ DOMAIN p.con # {} THEN {<<O("Dq", 0), LET z == Deactivate IN [z EXCEPT !.p = PQueue(@, [pid |-> 0, len |-> 3, h |-> 0, b |-> 0, cp |-> FALSE], FALSE).p]>>} ELSE {})
    \cup (IF ~on \/ bl = <<>> \/ Full THEN {} ELSE {<<O("aq", 0), Queue(Admit)>>, <<O("an", Head(bl)), End(Admit, Head(bl))>>, <<O("aD", 0), Down(Admit)>>})      \* the connect callback queues, closes or deactivates
    \cup (IF on \/ p.q = <<>> THEN {<<O("wm", 0), Poll([Same EXCEPT !.p = SendAll(@)])>>} ELSE {<<O("wm", 0), Same>>})
Fits(z) == Len(z.p.q) + Len(z.p.inf) <= W

View2(z) == <<z.on, z.bl, Len(z.p.q), [j \in 1..Len(z.p.inf) |-> {i \in DOMAIN z.p.con : z.p.inf[j].pid \in z.p.con[i].owed}], DOMAIN z.p.con>>
View == View2(Same)
Edge(op, z) == PrintT("@@" \o ToJson(<<ToString(View), ToString(View2(z)), op>>))
Init == p = PubInit /\ on = FALSE /\ bl = <<>> /\ open = {} /\ reg = NoFun
Next == \E m \in Moves : LET z == m[2] IN
            /\ Fits(z)
            /\ p' = z.p /\ on' = z.on /\ bl' = z.bl /\ open' = z.open /\ reg' = z.reg
            /\ Edge(m[1], z)
Spec == Init /\ [][Next]_vars

\* every open descriptor is registered, and nothing else is; inactive: nothing is open
DescInv == DOMAIN reg = open /\ open = DOMAIN p.con \cup (IF on THEN {M, L} ELSE {}) /\ (~on => open = {})
CapInv  == Cardinality(DOMAIN p.con) <= MAX
PollInv == \A d \in DOMAIN reg : (d # M => "r" \in reg[d]) /\ (("w" \in reg[d]) <=> (d = M /\ p.q # <<>>))
NobodyInv == DOMAIN p.con = {} => p.inf = <<>>
Inv == PubInv(p) /\ DescInv /\ CapInv /\ PollInv /\ NobodyInv
=============================================================================
