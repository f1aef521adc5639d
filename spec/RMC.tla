-------------------------------- MODULE RMC --------------------------------
(***************************************************************************)
(* The whole system: the publishers PUBS and the subscribers SUBS, each    *)
(* with the state and operators of PubCore and SubCore, a multicast        *)
(* network that loses, repeats and reorders, and TCP connections between   *)
(* them.  Conform.tla binds PubCore and SubCore to the code; this module   *)
(* shows what follows from them for the system.                            *)
(*                                                                         *)
(* There is no clock: RTO and ATO are zero here, so a timeout may run at   *)
(* any moment and finds everything due, which includes every timing.       *)
(*                                                                         *)
(* A subscriber's index of a publisher's connection is the publisher, and  *)
(* the other way round.  A connection consists of                          *)
(*   bl[p]      subscribers whose connection p has not accepted yet        *)
(*   dn[p][s]   [q: commands on the way to s, eof: p has closed]           *)
(*   up[p][s]   the other direction                                        *)
(*                                                                         *)
(* Budgets bound what is not bounded by W: LOSS, DUP, CLOSE, ANN, CTL.     *)
(* TIDY is the assumption under which C25 holds of this protocol (without  *)
(* it TLC finds the two known findings, KF1 and KF2):  a connection is set *)
(* up with nothing of the publisher's on the way, and the first packet     *)
(* sent on it is the first one received.                                   *)
(***************************************************************************)
EXTENDS PubCore

CONSTANTS PUBS, SUBS, W, LOSS, DUP, CLOSE, ANN, CTL, S, R, TIDY, WAIVE, PART, ATO
Sc == INSTANCE SubCore

VARIABLES pub, sub, net, dn, up, bl,        \* the system
          left,                             \* budgets
          must,     \* must[p][s]: numbers multicast since p accepted s
          mc,       \* mc[p][s]: numbers s has received by multicast on this connection
          got,      \* got[p][s]: numbers the application of s has taken, of this connection and of earlier ones: sequence of sequences
          back,     \* back[p]: numbers of the payloads given back, in that order
          ctls,     \* ctls[p][s]: control messages sent on this connection, and not received yet
          bad       \* something that must not happen has happened
vars == <<pub, sub, net, dn, up, bl, left, must, mc, got, back, ctls, bad>>
H0 == [node |-> 0, ip |-> "", port |-> 0]
NoCh == [q |-> <<>>, eof |-> FALSE]

PCon(p, s) == s \in DOMAIN pub[p].con
SCon(p, s) == p \in DOMAIN sub[s].con
SEst(p, s) == SCon(p, s) /\ sub[s].con[p].m = "established"
Both(p, s) == PCon(p, s) /\ SCon(p, s)
All(f) == [p \in PUBS |-> [s \in SUBS |-> f]]
Numbers(rel) == [j \in 1..Len(rel) |-> rel[j].pid]

Init ==
    /\ pub = [p \in PUBS |-> [PubInit EXCEPT !.s = S, !.r = R]]
    /\ sub = [s \in SUBS |-> Sc!SubInit]
    /\ net = [s \in SUBS |-> [p \in PUBS |-> [x \in 0..W |-> 0]]]
    /\ dn = All(NoCh) /\ up = All(NoCh) /\ bl = [p \in PUBS |-> <<>>]
    /\ left = [loss |-> LOSS, dup |-> DUP, close |-> CLOSE, ann |-> ANN, ctl |-> CTL]
    /\ must = All({}) /\ mc = All({}) /\ got = All(<<>>) /\ back = [p \in PUBS |-> <<>>] /\ ctls = All(<<>>) /\ bad = FALSE

\* ---- the publisher
GiveBack(p, rel) == back' = [back EXCEPT ![p] = @ \o Numbers(rel)]
Queue(p) ==             \* the application queues a packet; refused while traffic is suspended
    /\ pub[p].next <= W
    /\ pub' = [pub EXCEPT ![p] = PQueue(@, [pid |-> 0, len |-> 1, h |-> 0, b |-> 0, cp |-> FALSE], FALSE).p]
    /\ pub' # pub
    /\ UNCHANGED <<sub, net, dn, up, bl, left, must, mc, got, back, ctls, bad>>
RECURSIVE SendAll(_)
SendAll(y) == IF y.p.q = <<>> THEN y
              ELSE LET z == PSend(y.p, 0) IN SendAll([p |-> z.p, rel |-> y.rel \o z.rel, n |-> Append(y.n, Head(y.p.q).pid)])
Send(p) ==              \* the multicast socket is writable: everything queued is sent
    /\ pub[p].q # <<>>
    /\ TIDY => \A s \in SUBS : SCon(p, s) => (PCon(p, s) /\ SEst(p, s))
    /\ LET z == SendAll([p |-> pub[p], rel |-> <<>>, n |-> <<>>])
           N(x) == Len(SelectSeq(z.n, LAMBDA y : y = x))
       IN  /\ pub' = [pub EXCEPT ![p] = z.p]
           /\ GiveBack(p, SelectSeq(z.rel, LAMBDA k : k.pid # 0))
           /\ must' = [must EXCEPT ![p] = [s \in SUBS |-> IF PCon(p, s) THEN @[s] \cup ({z.n[j] : j \in 1..Len(z.n)} \ {0}) ELSE @[s]]]
           /\ net' = [s \in SUBS |-> [net[s] EXCEPT ![p] = [x \in 0..W |-> @[x] + N(x)]]]
           /\ bad' = (bad \/ \E j, k \in 1..Len(z.n) : j < k /\ z.n[j] >= z.n[k] /\ z.n[k] # 0)
    /\ UNCHANGED <<sub, dn, up, bl, left, mc, got, ctls>>
Announce(p) ==          \* an announcement is due: it is queued ahead of the data
    /\ left.ann > 0 /\ ~pub[p].sus
    /\ TIDY => \A s \in SUBS, x \in 1..W : net[s][p][x] = 0
    /\ left' = [left EXCEPT !.ann = @ - 1]
    /\ pub' = [pub EXCEPT ![p] = PQueue(@, [pid |-> 0, len |-> 0, h |-> 0, b |-> 0, cp |-> TRUE], TRUE).p]
    /\ UNCHANGED <<sub, net, dn, up, bl, must, mc, got, back, ctls, bad>>
PubTimeout(p) ==
    LET z == PTimeoutResend(pub[p], 0, H0) IN
    /\ z.p # pub[p]
    /\ pub' = [pub EXCEPT ![p] = z.p]
    /\ GiveBack(p, z.rel)
    /\ UNCHANGED <<sub, net, dn, up, bl, left, must, mc, got, ctls, bad>>
RECURSIVE AcceptAll(_, _)
AcceptAll(y, l) == IF l = <<>> THEN y ELSE AcceptAll(PAccept(y, Head(l), 0, "", 0, FALSE), Tail(l))
Accept(p) ==
    /\ bl[p] # <<>>
    /\ pub' = [pub EXCEPT ![p] = AcceptAll(@, bl[p])]
    /\ bl' = [bl EXCEPT ![p] = <<>>]
    /\ UNCHANGED <<sub, net, dn, up, left, must, mc, got, back, ctls, bad>>
PubWrite(p, s) ==       \* PART: only the first command, else everything
    /\ PCon(p, s) /\ pub[p].con[s].out.q # <<>> /\ ~up[p][s].eof
    /\ \E n \in {Pending(pub[p].con[s].out)} \cup (IF PART THEN {CmdSize(Head(pub[p].con[s].out.q))} ELSE {}) :
          LET w == PWrote(pub[p], s, n) IN
          /\ pub' = [pub EXCEPT ![p] = w.p]
          /\ dn' = [dn EXCEPT ![p][s].q = @ \o w.done]
    /\ UNCHANGED <<sub, net, up, bl, left, must, mc, got, back, ctls, bad>>
PubGone(p, s) ==        \* what p's end of the connection leaves behind
    LET z == PClose(pub[p], s) IN
    /\ pub' = [pub EXCEPT ![p] = z.p]
    /\ GiveBack(p, z.rel)
    /\ must' = [must EXCEPT ![p][s] = {}]
RECURSIVE PubCmds(_, _, _)
PubCmds(y, s, q) ==
    IF q = <<>> THEN y
    ELSE LET c == Head(q) IN
         IF c.t = 2 THEN LET z == PAck(y.p, s, c.lo, c.hi) IN PubCmds([y EXCEPT !.p = z.p, !.rel = @ \o z.rel], s, Tail(q))
         ELSE PubCmds([y EXCEPT !.ctl = Append(@, c.h)], s, Tail(q))
PubRead(p, s) ==
    /\ PCon(p, s)
    /\ \/ /\ up[p][s].q # <<>>
          /\ LET y == PubCmds([p |-> pub[p], rel |-> <<>>, ctl |-> <<>>], s, up[p][s].q)
                 n == Len(y.ctl)
             IN  /\ pub' = [pub EXCEPT ![p] = y.p]
                 /\ GiveBack(p, y.rel)
                 /\ bad' = (bad \/ n > Len(ctls[p][s]) \/ SubSeq(ctls[p][s], 1, n) # y.ctl)
                 /\ ctls' = [ctls EXCEPT ![p][s] = SubSeq(@, n + 1, Len(@))]
          /\ up' = [up EXCEPT ![p][s].q = <<>>]
          /\ UNCHANGED must
       \/ /\ up[p][s].q = <<>> /\ up[p][s].eof
          /\ PubGone(p, s)
          /\ UNCHANGED <<up, bad, ctls>>
    /\ UNCHANGED <<sub, net, dn, bl, left, mc, got>>
PubClose(p, s) ==
    /\ left.close > 0 /\ PCon(p, s)
    /\ left' = [left EXCEPT !.close = @ - 1]
    /\ PubGone(p, s)
    /\ dn' = [dn EXCEPT ![p][s].eof = TRUE]
    /\ up' = [up EXCEPT ![p][s].q = <<>>]
    /\ UNCHANGED <<sub, net, bl, mc, got, ctls, bad>>

\* ---- the network and the subscriber
Receive(p, s, x, tcp) == Sc!SReceive(sub[s], p, [pid |-> x, len |-> 1, h |-> 0, b |-> 0, c |-> <<p, Len(got[p][s])>>], 0, tcp)
FirstOnly(p, s, x) == TIDY /\ x # 0 /\ SEst(p, s) => (sub[s].con[p].base # 0 \/ (must[p][s] # {} /\ x = MinOf(must[p][s])))
Deliver(p, s, x, keep) ==
    /\ net[s][p][x] > 0 /\ FirstOnly(p, s, x)
    /\ keep => left.dup > 0
    /\ TIDY /\ SCon(p, s) /\ ~SEst(p, s) => x = 0
    /\ left' = IF keep THEN [left EXCEPT !.dup = @ - 1] ELSE left
    /\ net' = IF keep THEN net ELSE [net EXCEPT ![s][p][x] = @ - 1]
    /\ IF x = 0
       THEN IF SCon(p, s) THEN UNCHANGED <<sub, bl, dn, up, got, mc, ctls>>
            ELSE /\ ~PCon(p, s)     \* p has noticed the end of the previous connection
                 /\ sub' = [sub EXCEPT ![s] = Sc!SConnect(@, p, 0, "", 0, 0, FALSE)]
                 /\ bl' = [bl EXCEPT ![p] = Append(@, s)]
                 /\ dn' = [dn EXCEPT ![p][s] = NoCh] /\ up' = [up EXCEPT ![p][s] = NoCh]
                 /\ got' = [got EXCEPT ![p][s] = Append(@, <<>>)]
                 /\ mc' = [mc EXCEPT ![p][s] = {}] /\ ctls' = [ctls EXCEPT ![p][s] = <<>>]
       ELSE /\ IF SEst(p, s)
               THEN /\ sub' = [sub EXCEPT ![s] = Receive(p, s, x, FALSE).s]
                    /\ mc' = [mc EXCEPT ![p][s] = @ \cup {x}]
               ELSE UNCHANGED <<sub, mc>>
            /\ UNCHANGED <<bl, dn, up, got, ctls>>
    /\ UNCHANGED <<pub, must, back, bad>>
Lose(p, s, x) ==
    /\ left.loss > 0 /\ net[s][p][x] > 0 /\ FirstOnly(p, s, x)
    /\ TIDY /\ x # 0 /\ SEst(p, s) => sub[s].con[p].base # 0
    /\ left' = [left EXCEPT !.loss = @ - 1]
    /\ net' = [net EXCEPT ![s][p][x] = @ - 1]
    /\ UNCHANGED <<pub, sub, dn, up, bl, must, mc, got, back, ctls, bad>>
Complete(p, s) ==
    /\ SCon(p, s) /\ ~SEst(p, s)
    /\ TIDY => (PCon(p, s) \/ dn[p][s].eof)
    /\ sub' = [sub EXCEPT ![s] = Sc!SComplete(@, p)]
    /\ UNCHANGED <<pub, net, dn, up, bl, left, must, mc, got, back, ctls, bad>>
SubTimeout(s) ==
    /\ Sc!STimeout(sub[s], 0) # sub[s]
    /\ sub' = [sub EXCEPT ![s] = Sc!STimeout(@, 0)]
    /\ UNCHANGED <<pub, net, dn, up, bl, left, must, mc, got, back, ctls, bad>>
SubWrite(p, s) ==
    /\ SEst(p, s) /\ sub[s].con[p].out.q # <<>> /\ ~dn[p][s].eof
    /\ \E n \in {Pending(sub[s].con[p].out)} \cup (IF PART THEN {CmdSize(Head(sub[s].con[p].out.q))} ELSE {}) :
          LET w == Sc!SWrote(sub[s], p, n) IN
          /\ sub' = [sub EXCEPT ![s] = w.s]
          /\ up' = [up EXCEPT ![p][s].q = @ \o w.done]
    /\ UNCHANGED <<pub, net, dn, bl, left, must, mc, got, back, ctls, bad>>
RECURSIVE SubCmds(_, _, _, _)
SubCmds(y, p, s, q) == IF q = <<>> THEN y
                       ELSE SubCmds(Sc!SReceive(y, p, [pid |-> Head(q).pid, len |-> 1, h |-> 0, b |-> 0, c |-> <<p, Len(got[p][s])>>], 0, TRUE).s, p, s, Tail(q))
SubRead(p, s) ==
    /\ SEst(p, s)
    /\ \/ /\ dn[p][s].q # <<>>
          /\ sub' = [sub EXCEPT ![s] = SubCmds(@, p, s, dn[p][s].q)]
          /\ dn' = [dn EXCEPT ![p][s].q = <<>>]
       \/ /\ dn[p][s].q = <<>> /\ dn[p][s].eof
          /\ sub' = [sub EXCEPT ![s] = Sc!SClose(@, p).s]
          /\ UNCHANGED dn
    /\ UNCHANGED <<pub, net, up, bl, left, must, mc, got, back, ctls, bad>>
SubClose(p, s) ==
    /\ left.close > 0 /\ SEst(p, s) /\ PCon(p, s)
    /\ left' = [left EXCEPT !.close = @ - 1]
    /\ sub' = [sub EXCEPT ![s] = Sc!SClose(@, p).s]
    /\ up' = [up EXCEPT ![p][s].eof = TRUE]
    /\ dn' = [dn EXCEPT ![p][s].q = <<>>]
    /\ UNCHANGED <<pub, net, bl, must, mc, got, back, ctls, bad>>
Take(s) ==              \* the application takes the next packet
    /\ sub[s].ready # <<>>
    /\ LET k == Head(sub[s].ready) IN got' = [got EXCEPT ![k.c[1]][s][k.c[2]] = Append(@, k.pid)]
    /\ sub' = [sub EXCEPT ![s] = Sc!SDispatch(@)]
    /\ UNCHANGED <<pub, net, dn, up, bl, left, must, mc, back, ctls, bad>>
Control(p, s) ==
    /\ left.ctl > 0 /\ SEst(p, s)
    /\ LET z == Sc!SControl(sub[s], p, 2, left.ctl) IN
       /\ z.ok
       /\ sub' = [sub EXCEPT ![s] = z.s]
    /\ ctls' = [ctls EXCEPT ![p][s] = Append(@, left.ctl)]
    /\ left' = [left EXCEPT !.ctl = @ - 1]
    /\ UNCHANGED <<pub, net, dn, up, bl, must, mc, got, back, bad>>

Do(op) ==
    LET p == op[2]  s == op[3]  x == op[4] IN
    CASE op[1] = "queue" -> Queue(p)        [] op[1] = "send" -> Send(p)            [] op[1] = "ann" -> Announce(p)
      [] op[1] = "ptime" -> PubTimeout(p)   [] op[1] = "acc" -> Accept(p)           [] op[1] = "pwrite" -> PubWrite(p, s)
      [] op[1] = "pread" -> PubRead(p, s)   [] op[1] = "pclose" -> PubClose(p, s)   [] op[1] = "dlv" -> Deliver(p, s, x, FALSE)
      [] op[1] = "dup" -> Deliver(p, s, x, TRUE)    [] op[1] = "lose" -> Lose(p, s, x)      [] op[1] = "compl" -> Complete(p, s)
      [] op[1] = "stime" -> SubTimeout(s)   [] op[1] = "swrite" -> SubWrite(p, s)   [] op[1] = "sread" -> SubRead(p, s)
      [] op[1] = "sclose" -> SubClose(p, s) [] op[1] = "take" -> Take(s)            [] op[1] = "ctl" -> Control(p, s)
Ops == ({"queue", "send", "ann", "ptime", "acc"} \X PUBS \X {0} \X {0}) \cup ({"stime", "take"} \X {0} \X SUBS \X {0})
       \cup ({"pwrite", "pread", "pclose", "compl", "swrite", "sread", "sclose", "ctl"} \X PUBS \X SUBS \X {0})
       \cup ({"dlv", "dup", "lose"} \X PUBS \X SUBS \X (0..W))
Next == \E op \in Ops : Do(op)
\* everybody serves descriptors and timeouts, and the network delivers what it does not lose
Fair == \A op \in Ops : op[1] \in {"queue", "send", "ptime", "acc", "pwrite", "pread", "dlv", "compl", "stime", "swrite", "sread", "take"} => WF_vars(Do(op))
Spec == Init /\ [][Next]_vars /\ Fair

\* ---- what must hold always
CoreInv == (\A p \in PUBS : PubInv(pub[p])) /\ (\A s \in SUBS : Sc!SubInv(sub[s])) /\ ~bad
Consecutive(q) == \A j \in 1..(Len(q) - 1) : q[j + 1] = q[j] + 1
\* C01: what an application takes of a connection is consecutive, and starts with the first packet received
Ordered == \A p \in PUBS, s \in SUBS : \A e \in 1..Len(got[p][s]) :
              /\ Consecutive(got[p][s][e])
              /\ (SCon(p, s) /\ e = Len(got[p][s]) /\ got[p][s][e] # <<>>) => got[p][s][e][1] = sub[s].con[p].base
\* C04: every packet is queued, owed to somebody, or given back, and given back once
Released == \A p \in PUBS :
    /\ \A j, k \in 1..Len(back[p]) : j # k => back[p][j] # back[p][k]
    /\ \A x \in 1..(pub[p].next - 1) :
          Cardinality({c \in 1..3 : CASE c = 1 -> \E j \in 1..Len(pub[p].q) : pub[p].q[j].pid = x
                                      [] c = 2 -> \E j \in 1..Len(pub[p].inf) : pub[p].inf[j].pid = x
                                      [] OTHER -> \E j \in 1..Len(back[p]) : back[p][j] = x}) = 1
\* C05: whatever is acknowledged, on the way or already at the publisher, was received by multicast on this connection
AcksOf(q) == UNION {IF q[j].t = 2 THEN q[j].lo..q[j].hi ELSE {} : j \in 1..Len(q)}
Truthful == \A p \in PUBS, s \in SUBS : SCon(p, s) =>
    /\ AcksOf(up[p][s].q) \cup AcksOf(sub[s].con[p].out.q) \cup DOMAIN sub[s].con[p].ack \subseteq mc[p][s]
    /\ AcksOf(up[p][s].q) \cap AcksOf(sub[s].con[p].out.q) = {} /\ (AcksOf(up[p][s].q) \cup AcksOf(sub[s].con[p].out.q)) \cap DOMAIN sub[s].con[p].ack = {}
\* C03, C25: no packet that was sent to a connected subscriber is forgotten: it is owed, or on the way by TCP, or received
PidsOf(q) == {q[j].pid : j \in 1..Len(q)}
\* the known findings: a packet older than the first one received; packets missing between that and the first one owed
KF1(p, s, x) == sub[s].con[p].base > x
KF2(p, s) == LET c == sub[s].con[p] IN c.base # 0 /\ must[p][s] # {} /\ \E x \in (c.base + 1)..(MinOf(must[p][s]) - 1) : ~(x < c.nxt \/ x \in DOMAIN c.held)
Received(p, s, x) == LET c == sub[s].con[p] IN c.base # 0 /\ ((x >= c.base /\ x < c.nxt) \/ x \in DOMAIN c.held)
Kept == \A p \in PUBS, s \in SUBS : Both(p, s) /\ ~dn[p][s].eof /\ ~up[p][s].eof => \A x \in must[p][s] :
            (WAIVE /\ KF1(p, s, x)) \/ x \in pub[p].con[s].owed \/ x \in PidsOf(pub[p].con[s].out.q) \cup PidsOf(dn[p][s].q) \/ Received(p, s, x)
\* C08, C09: a connection does not hear of packets of another
Apart == \A p \in PUBS, s \in SUBS : SCon(p, s) => DOMAIN sub[s].con[p].held \cup DOMAIN sub[s].con[p].ack \subseteq 1..(pub[p].next - 1)
\* C06: suspended only while packets are in flight that can still be acknowledged
Throttled == \A p \in PUBS : pub[p].sus => Len(pub[p].inf) > 0
Inv == CoreInv /\ Ordered /\ Released /\ Truthful /\ Kept /\ Apart /\ Throttled

\* ---- what must come to hold (C25)
Quiet == \A p \in PUBS :
    /\ pub[p].q = <<>> /\ pub[p].inf = <<>> /\ pub[p].next = W + 1 /\ ~pub[p].sus
    /\ \A s \in SUBS : /\ up[p][s].q = <<>> /\ (Both(p, s) => dn[p][s].q = <<>> /\ ctls[p][s] = <<>> /\ pub[p].con[s].out.q = <<>>)
                       /\ PCon(p, s) => SCon(p, s) /\ sub[s].con[p].out.q = <<>>
                       /\ Both(p, s) => \A x \in must[p][s] : (WAIVE /\ (KF1(p, s, x) \/ KF2(p, s))) \/ \E j \in 1..Len(got[p][s][Len(got[p][s])]) : got[p][s][Len(got[p][s])][j] = x
Rest == <>[]Quiet
=============================================================================
