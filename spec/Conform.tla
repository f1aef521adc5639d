------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Checks traces of the real library against PubCore and SubCore.          *)
(*                                                                         *)
(* A trace is a sequence of records, one per call of the public API, each  *)
(* with its arguments, its result, everything the library did during the   *)
(* call (callbacks, system calls, bytes on the wire: the field ev), and    *)
(* the answers of all query functions afterwards (the field ob).  Events   *)
(* that the environment decides (what a read returned, what a callback     *)
(* answered, which system call failed, which slot was picked) drive the    *)
(* reference state; everything else is compared with what the reference    *)
(* state requires.  A difference is a failure labelled with the properties *)
(* that it contradicts.  After a failure of a node its reference state is  *)
(* abandoned, since nothing certain can be said about it any more; the     *)
(* end-to-end monitor (property C25) goes on, because it does not depend   *)
(* on the reference state.                                                 *)
(*                                                                         *)
(* Deliberately not prescribed: which free slot or descriptor is used, how *)
(* often poll_modify is called, how many system calls a transfer takes,    *)
(* the order of effects on different connections, and return codes that    *)
(* the properties do not mention.                                          *)
(***************************************************************************)
EXTENDS PubCore, Json, IOUtils, SequencesExt

CONSTANT ATO
S == INSTANCE SubCore

Traces == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)

MCAST  == 32766
LISTEN == 32765
READ   == 1
WRITE  == 2
HasRead(a)  == a % 2 = 1
HasWrite(a) == (a \div 2) % 2 = 1
HEMPTY == 1039871680          \* the harness's hash of no bytes
MAXPAYLOAD == 65312
EPERM == 1  EAGAIN == 11  ENOMEM == 12  EBUSY == 16  EEXIST == 17  EINVAL == 22  EPROTO == 71  EMSGSIZE == 90
ENOTCONN == 107  EINPROGRESS == 115

VARIABLES k,      \* the trace being checked
          l,      \* records consumed
          N,      \* node number -> reference state
          E,      \* end-to-end monitor
          G       \* log level
vars == <<k, l, N, E, G>>

(*************************** accumulator of one call ***********************)
NoAcc == [fd |-> -1, cid |-> 0, ip |-> "", port |-> 0]
X0 == [rel |-> <<>>, dc |-> <<>>, odc |-> <<>>, ctl |-> <<>>, fre |-> <<>>, ret |-> -1, acc |-> NoAcc, newi |-> -1, cc |-> 0, cn |-> 0,
       refused |-> FALSE, flt |-> 0, acb |-> "no", alen |-> 0, ahash |-> 0, aret |-> 0, todo |-> <<>>, ann |-> <<>>, want |-> <<>>,
       pcon |-> NoAcc, newr |-> FALSE, bad |-> FALSE, soe |-> -1, cmp |-> 0, ncon |-> 0, full |-> FALSE, closedi |-> {}, ndsp |-> 0,
       hadack |-> FALSE, hadctl |-> FALSE, trx |-> FALSE, anyref |-> FALSE, outs |-> <<>>, ptodo |-> <<>>, nctl |-> 0, nret |-> -1, wascon |-> FALSE, mrd |-> FALSE, mwr |-> FALSE, depth |-> 0]

Fl(a, lab, msg) == [a EXCEPT !.f = @ \cup {<<lab, msg>>}]
FlIf(c, a, lab, msg) == IF c THEN Fl(a, lab, msg) ELSE a
\* a wrong answer to a query is reported once, and the node is followed further: what it does may be right (or wrong in other respects)
FlSoft(c, a, lab, msg) == IF c /\ ~a.n.soft THEN [Fl(a, lab \cup {"~"}, msg) EXCEPT !.n.soft = TRUE] ELSE a

\* extra labels: a connection whose slot was used before; a node with several connections; a node that saw a malformed datagram
OldL(con, i) == IF i \in DOMAIN con /\ con[i].old THEN {"C10"} ELSE {}
MultiP(n) == IF n.many THEN {"C09"} ELSE {}
MultiS(n) == (IF n.many THEN {"C08"} ELSE {}) \cup (IF n.sawbad THEN {"C22"} ELSE {})
ActL(op) == IF op.k \in {"pact", "pdeact", "pdel", "sact", "sdeact", "sdel", "pnew", "snew"} THEN {"C26"} ELSE {}
CloseL(op, a) == (IF a.x.closedi # {} THEN {"C10"} ELSE {}) \cup (IF a.x.anyref THEN {"C23"} ELSE {})   \* anyref: a subscriber was refused

(*************************** descriptors and polling ***********************)
Registered(n) == {d \in DOMAIN n.fd : n.fd[d].i # -1}
FdOf(n, i)    == {d \in DOMAIN n.fd : n.fd[d].i = i}
IdxOf(n, d)   == IF d \in DOMAIN n.fd THEN n.fd[d].i ELSE -1

GenEv(a, e, op) ==
    CASE e.e = "so" -> [a EXCEPT !.n.fd = (e.fd :> [t |-> e.t, i |-> -1, a |-> 0]) @@ @]
      [] e.e = "acc" -> IF e.r = 0 THEN [a EXCEPT !.n.fd = (e.fd :> [t |-> "t", i |-> -1, a |-> 0]) @@ @] ELSE a
      [] e.e = "cl" ->
            IF e.fd \notin DOMAIN a.n.fd THEN Fl(a, {"C10", "C18"} \cup ActL(op), "closed a descriptor that is not open")
            ELSE LET a1 == FlIf(a.n.fd[e.fd].i # -1 /\ a.n.cfg.pr = 1, a, {"C10", "C14"} \cup ActL(op), "closed a descriptor that is still registered with polling")
                 IN  [a1 EXCEPT !.n.fd = Restrict(@, DOMAIN @ \ {e.fd})]
      [] e.e = "pa" ->
            LET a0 == FlIf(e.ud # 1, a, {"C23"}, "poll_add with wrong user data")
                a1 == FlIf(FdOf(a0.n, e.i) # {}, a0, {"C14"} \cup ActL(op), "poll_add under an index in use")
            IN  IF e.fd \notin DOMAIN a1.n.fd THEN Fl(a1, {"C14"} \cup ActL(op), "poll_add of a descriptor that is not open")
                ELSE LET a2 == FlIf(a1.n.fd[e.fd].i # -1, a1, {"C14"} \cup ActL(op), "poll_add of a registered descriptor")
                     IN  [a2 EXCEPT !.n.fd[e.fd].i = e.i, !.n.fd[e.fd].a = e.a]
      [] e.e = "pm" ->
            LET a0 == FlIf(e.ud # 1, a, {"C23"}, "poll_modify with wrong user data")
            IN  IF IdxOf(a0.n, e.fd) # e.i THEN Fl(a0, {"C14"} \cup ActL(op), "poll_modify of something not registered under that index")
                ELSE LET a1 == FlIf(a0.n.fd[e.fd].t = "t" /\ e.i # LISTEN /\ a0.n.fd[e.fd].a # e.o, a0, {"C14"}, "poll_modify names a wrong previous interest")
                     IN  [a1 EXCEPT !.n.fd[e.fd].a = e.a]
      [] e.e = "pr" ->
            LET a0 == FlIf(e.ud # 1, a, {"C23"}, "poll_remove with wrong user data")
                a1 == FlIf(e.op # 1, a0, {"C14", "C10"} \cup ActL(op), "poll_remove of a closed descriptor")
            IN  IF IdxOf(a1.n, e.fd) # e.i THEN Fl(a1, {"C14", "C10"} \cup ActL(op), "poll_remove of something not registered under that index")
                ELSE [a1 EXCEPT !.n.fd[e.fd].i = -1]
      [] e.e = "chg" -> Fl(a, {"C30"}, "what the application was given in a callback changed during the callback")
      [] e.e = "blk" -> Fl(a, {"C14"}, "blocking call on " \o e.w)
      [] e.e = "flt" -> [a EXCEPT !.x.flt = IF @ = 0 THEN e.er ELSE @]
      [] OTHER -> a

(* What must hold of descriptors and interests after a call; want: index -> [r: read needed, w: "yes", "no" or "any"] *)
PollEnd(a, want, lab, op) ==
    LET n == a.n
        reg == {n.fd[d].i : d \in Registered(n)}
        a1 == FlIf(Registered(n) # DOMAIN n.fd, a, {"C10", "C18", "C14"} \cup ActL(op) \cup CloseL(op, a), "a descriptor is open but not registered with polling")
        a2 == FlIf(reg # DOMAIN want, a1, {"C14", "C18"} \cup CloseL(op, a1) \cup ActL(op) \cup lab,
                   "registered " \o ToString(reg) \o " expected " \o ToString(DOMAIN want))
        bad(d) == LET i == n.fd[d].i IN
                    i \in DOMAIN want /\ ( (want[i].r /\ ~HasRead(n.fd[d].a))
                                        \/ (want[i].w = "yes" /\ ~HasWrite(n.fd[d].a))
                                        \/ (want[i].w = "no" /\ HasWrite(n.fd[d].a)) )
        wrong == IF n.cfg.pm = 0 THEN {} ELSE {d \in Registered(n) : bad(d)}
    IN  FlIf(wrong # {}, a2, {"C14"} \cup lab,
             "interest of index " \o ToString({n.fd[d].i : d \in wrong}) \o " is " \o ToString({n.fd[d].a : d \in wrong}))
\* commands of kind t still to be written to connection i
Left(n, i, t) == i \in DOMAIN n.c.con /\ \E j \in 1..Len(n.c.con[i].out.q) : n.c.con[i].out.q[j].t = t
YN(b) == IF b THEN "yes" ELSE "no"

(******************** what calls report through op_res *********************)
NORES == 98     \* the call was made without a result pointer
RERROR == 0  RMULTICAST == 1  RNEW == 3  RNOTREADY == 4  RTCP == 5  RACCEPT == 6  RDISCONNECT == 7  WMULTICAST == 8  WCOMPLETE == 9  WTCP == 10
\* ok: the codes that are right for a call that succeeded ({}: not prescribed)
ResFl(a, op, ok) ==
    IF op.o = NORES \/ \E j \in 1..Len(op.ev) : op.ev[j].e = "call" THEN a
    ELSE IF op.r = 0 THEN FlIf(ok # {} /\ op.o \notin ok, a, {"C27"}, "reported " \o ToString(op.o) \o " expected " \o ToString(ok))
    ELSE FlIf(op.r # EAGAIN /\ op.o # RERROR, a, {"C27"}, "failed with " \o ToString(op.r) \o " and reported " \o ToString(op.o))

(******************************* publisher *********************************)
Pk(len, h, b, cp) == [pid |-> 0, len |-> len, h |-> h, b |-> b, cp |-> cp]
Hdr(n) == [node |-> n.cfg.nid, ip |-> n.cfg.lip, port |-> n.port]

PClosed(a, i) ==        \* connection i ends
    LET c == a.n.c.con[i]  z == PClose(a.n.c, i)
    IN  [a EXCEPT !.n.c = z.p, !.x.rel = @ \o z.rel, !.x.closedi = @ \cup {i},
                  !.x.dc = IF a.n.cfg.dcb = 1 THEN Append(@, <<c.ip, c.port>>) ELSE @]

FinishAcc(a, op) ==     \* everything about the last accepted connection has been seen
    IF a.x.acc.fd = -1 THEN a
    ELSE IF a.x.newi = -1
    THEN FlIf(a.x.flt = 0, [a EXCEPT !.x.acc = NoAcc], {"C18"}, "an accepted connection was dropped")
    ELSE LET a1 == FlIf(a.n.cfg.ccb = 1 /\ a.x.cc # 1, a, {"C23"}, "connect callback missing")
             a2 == IF ~a1.x.refused THEN a1
                   ELSE LET z == PClose(a1.n.c, a1.x.newi)      \* whether a refused subscriber gets the disconnect callback is left open
                        IN  [a1 EXCEPT !.n.c = z.p, !.x.rel = @ \o z.rel, !.x.closedi = @ \cup {a1.x.newi},
                                       !.x.odc = Append(@, <<a1.x.acc.ip, a1.x.acc.port>>)]
         IN  [a2 EXCEPT !.x.acc = NoAcc, !.x.newi = -1, !.x.cc = 0, !.x.refused = FALSE, !.x.anyref = @ \/ a1.x.refused]

SameWire(c, m) == \* what a command on the wire says, except that an empty payload has no bytes to compare
    /\ c.t = m.t
    /\ CASE c.t = 1 -> c.pid = m.pid /\ c.len = m.len /\ (c.len = 0 \/ c.h = m.h) /\ c.node = m.node /\ c.ip = m.ip /\ c.port = m.port
         [] c.t = 2 -> c.lo = m.lo /\ c.hi = m.hi
         [] c.t = 3 -> c.len = m.len /\ (c.len = 0 \/ c.h = m.h)
         [] OTHER -> TRUE
SameCmds(done, cm) == Len(done) = Len(cm) /\ \A j \in 1..Len(cm) : SameWire(done[j], cm[j])
Ids(s) == [j \in 1..Len(s) |-> IF s[j].t = 1 THEN <<1, s[j].pid>> ELSE <<s[j].t, 0>>]
WireLabP(done, cm) == IF Ids(done) = Ids(cm) THEN {"C02"}
                      ELSE {"C03"} \cup (IF Len(done) # Len(cm) \/ \E j \in 1..Len(cm) : cm[j].t = 0 THEN {"C12", "C02"} ELSE {})

\* the commands just read from connection i take effect in order; the application may call the library from the callbacks they cause
RECURSIVE PCmds(_, _, _, _)
PCmds(a, i, cm, nctl) ==     \* as far as the nctl-th control callback of this call
    IF cm = <<>> \/ i \notin DOMAIN a.n.c.con THEN [a EXCEPT !.x.ptodo = <<>>]
    ELSE IF Len(a.x.ctl) >= nctl THEN [a EXCEPT !.x.ptodo = <<i, cm>>]
    ELSE LET c == Head(cm) IN
         CASE c.t = 2 -> LET z == PAck(a.n.c, i, c.lo, c.hi)
                             odd == c.lo < 1 \/ c.lo > c.hi \/ c.hi >= a.n.c.next      \* no subscriber that keeps to the protocol sends this
                         IN  PCmds([a EXCEPT !.n.c = z.p, !.x.rel = @ \o z.rel, !.x.hadack = TRUE, !.n.wild = @ \/ odd], i, Tail(cm), nctl)
           [] c.t = 3 -> PCmds(IF a.n.cfg.ctl = 0 THEN [a EXCEPT !.x.hadctl = TRUE] ELSE [a EXCEPT !.x.hadctl = TRUE, !.x.ctl = Append(@, [ip |-> a.n.c.con[i].ip, port |-> a.n.c.con[i].port, len |-> c.len, h |-> c.h])], i, Tail(cm), nctl)
           [] OTHER -> PClosed([a EXCEPT !.x.ret = EPROTO, !.n.wild = TRUE, !.x.ptodo = <<>>], i)     \* the subscriber broke the protocol: nothing after it is interpreted

PRun(a, nctl) == IF a.x.ptodo = <<>> THEN a ELSE PCmds(a, a.x.ptodo[1], a.x.ptodo[2], nctl)
PRest(a) == PRun(a, 1000000)

(* What calls do by themselves; the same when they are made from within a callback. *)
PBegin(n, op) ==
    LET a == [n |-> n, x |-> X0, f |-> {}] IN
    CASE op.k = "pq" ->
            IF op.len > MAXPAYLOAD THEN [a EXCEPT !.x.ret = IF n.c.sus THEN -2 ELSE EMSGSIZE]
            ELSE LET z == PQueue(n.c, Pk(op.len, op.h, op.b, FALSE), op.an # 0)
                 IN  [a EXCEPT !.n.c = z.p, !.x.ret = IF z.busy THEN EBUSY ELSE 0]
      [] op.k = "pqx" -> [a EXCEPT !.x.ret = EINVAL]
      [] op.k = "pann" -> [a EXCEPT !.n.c = PSetInterval(@, op.iv, op.now), !.x.ret = 0]
      [] op.k = "pthr" -> LET z == PThrottle(n.c, op.s, op.rs) IN [a EXCEPT !.n.c = z.p, !.x.ret = IF z.ok THEN 0 ELSE EINVAL]
      [] op.k = "pt" -> [a EXCEPT !.x.acb = IF PAnnounceDue(n.c, op.now) /\ n.cfg.acb = 1 THEN "want" ELSE "no"]
      [] op.k = "pclose" -> IF op.i \in DOMAIN n.c.con THEN PClosed([a EXCEPT !.x.ret = 0], op.i) ELSE [a EXCEPT !.x.ret = -2]
      [] op.k = "pacc" -> [a EXCEPT !.x.full = Cardinality(DOMAIN n.c.con) >= n.cfg.max]
      [] op.k = "pud" -> [a EXCEPT !.x.ret = 0]
      [] op.k \in {"pr", "pw"} -> IF op.i \in DOMAIN n.c.con THEN [a EXCEPT !.x.mrd = (op.k = "pr"), !.x.mwr = (op.k = "pw" /\ Pending(n.c.con[op.i].out) > 0)] ELSE [a EXCEPT !.x.ret = -2]
      [] OTHER -> a
RECURSIVE PCloseAll(_, _)
PCloseAll(a, T) == IF T = {} THEN a ELSE LET i == CHOOSE i \in T : TRUE IN PCloseAll(PClosed(a, i), T \ {i})
PDown(a) == [PCloseAll(a, DOMAIN a.n.c.con) EXCEPT !.n.on = FALSE, !.x.ret = 0]
PInner(n, op) == IF op.k = "pdeact" THEN PDown([n |-> n, x |-> X0, f |-> {}]) ELSE PBegin(n, op)

Nested(a, b) ==     \* b: what the call made from within the callback does
    [a EXCEPT !.n = [b.n EXCEPT !.nest = TRUE], !.x.rel = @ \o b.x.rel, !.x.dc = @ \o b.x.dc, !.x.fre = @ \o b.x.fre, !.x.closedi = @ \cup b.x.closedi, !.x.nret = b.x.ret]
NestedRet(a, e, lab) == FlIf((a.x.nret >= 0 /\ e.r # a.x.nret) \/ (a.x.nret = -2 /\ e.r = 0), a, lab \cup {"C30"},
                             "call from within a callback returned " \o ToString(e.r) \o " expected " \o ToString(a.x.nret))

PubEv(a0, e, op) ==
    LET a == GenEv(a0, e, op) IN
    CASE e.e = "acc" ->
            LET a1 == FinishAcc(a, op) IN
            IF e.r # 0 THEN a1
            ELSE [FlIf(Cardinality(DOMAIN a1.n.c.con) >= a1.n.cfg.max, a1, {"C18"}, "accepted beyond the maximum") EXCEPT !.x.acc = [fd |-> e.fd, cid |-> e.c, ip |-> e.ip, port |-> e.port], !.x.newi = -1, !.x.cc = 0,
                            !.x.cn = @ + 1]
      [] e.e = "pa" /\ e.fd = a.x.acc.fd ->
            IF e.i \in DOMAIN a.n.c.con \/ e.i >= a.n.cfg.max THEN Fl(a, {"C18", "C14"}, "connection placed in slot " \o ToString(e.i))
            ELSE [a EXCEPT !.n.c = PAccept(@, e.i, a.x.acc.cid, a.x.acc.ip, a.x.acc.port, e.i \in a.n.used), !.n.used = @ \cup {e.i}, !.x.newi = e.i,
                           !.n.many = @ \/ Cardinality(DOMAIN a.n.c.con) > 0]
      [] e.e = "cc" ->
            LET a1 == FlIf(e.cx # 1, a, {"C23"}, "connect callback for another context")
                ok == a.x.acc.fd # -1 /\ a.x.newi # -1 /\ a.n.cfg.ccb = 1 /\ a.x.cc = 0 /\ e.ip = a.x.acc.ip /\ e.port = a.x.acc.port
            IN  [FlIf(~ok, a1, {"C23"}, "connect callback with " \o e.ip \o " " \o ToString(e.port)) EXCEPT !.x.cc = @ + 1, !.x.refused = (e.r = 0)]
      [] e.e = "ttx" /\ e.n > 0 ->
            LET i == IdxOf(a.n, e.fd) IN
            IF i \notin DOMAIN a.n.c.con THEN Fl(a, {"C12", "C10"}, "wrote on something that is no connection")
            ELSE IF e.n > Pending(a.n.c.con[i].out) THEN Fl(a, {"C12", "C21", "C03"} \cup OldL(a.n.c.con, i), "wrote " \o ToString(e.n) \o " bytes, had " \o ToString(Pending(a.n.c.con[i].out)))
            ELSE LET w == PWrote(a.n.c, i, e.n)
                 IN  FlIf(~SameCmds(w.done, e.cm), [a EXCEPT !.n.c = w.p], WireLabP(w.done, e.cm) \cup MultiP(a.n) \cup OldL(a.n.c.con, i),
                          "wrote " \o ToString(e.cm) \o " expected " \o ToString(w.done))
      [] e.e = "trx" ->
            LET i == IdxOf(a.n, e.fd) IN
            IF i \notin DOMAIN a.n.c.con THEN Fl(a, {"C12", "C10"}, "read from something that is no connection")
            ELSE IF e.n = 0 \/ (e.n = -1 /\ e.er # EAGAIN) THEN PClosed(a, i)
            ELSE LET a1 == [PRest(a) EXCEPT !.x.trx = TRUE] IN PCmds(a1, i, e.cm, a1.x.nctl)
      [] e.e = "mtx" ->
            IF a.n.c.q = <<>> THEN Fl(a, {"C16", "C17"}, "multicast with nothing queued")
            ELSE LET q == Head(a.n.c.q)
                     same == e.plen = q.len /\ e.len = q.len /\ e.sz = HDR + q.len /\ (q.len = 0 \/ e.h = q.h) /\ e.node = a.n.cfg.nid /\ e.ip = a.n.cfg.lip /\ e.port = a.n.port
                     a1 == FlIf(e.pid # q.pid, a, {"C16"} \cup (IF e.pid = 0 \/ q.pid = 0 THEN {"C17"} ELSE {}), "multicast number " \o ToString(e.pid) \o " expected " \o ToString(q.pid))
                     a2 == FlIf(e.pid = q.pid /\ ~same, a1, (IF q.pid = 0 THEN {"C17", "C02"} ELSE {"C02"}), "multicast " \o ToString(e) \o " expected " \o ToString(q))
                     a3 == FlIf(e.gip # a.n.cfg.grp \/ e.gport # a.n.cfg.gport, a2, {"C16", "C26"}, "multicast to another group")
                     z == PSend(a.n.c, op.now)
                 IN  IF e.r = 0 THEN [a3 EXCEPT !.n.c = z.p, !.x.rel = @ \o z.rel] ELSE [a3 EXCEPT !.x.ret = e.r]
      [] e.e = "acb" ->
            LET a1 == FlIf(e.cx # 1, a, {"C23"}, "announce callback for another context")
                a2 == FlIf(a.x.acb # "want", a1, {"C17"}, "announce callback without reason")
                a3 == FlIf(e.max # MAXPAYLOAD, a2, {"C17"}, "announce callback with maximum " \o ToString(e.max))
            IN  [a3 EXCEPT !.x.acb = "done", !.x.alen = e.len, !.x.ahash = e.h, !.x.aret = e.r]
      [] e.e = "dc"  -> FlIf(e.cx # 1, IF a.x.depth > 0 THEN a ELSE PRest(a), {"C23"}, "disconnect callback for another context")
      [] e.e = "ctl" -> LET a1 == PRun(a, a.x.nctl + 1) IN [FlIf(e.cx # 1, a1, {"C23", "C13"}, "control callback for another context") EXCEPT !.x.nctl = @ + 1]
      [] e.e = "call" -> Nested([a EXCEPT !.x.depth = @ + 1], PInner(a.n, e @@ [now |-> op.now]))
      [] e.e = "cret" -> NestedRet([a EXCEPT !.x.depth = @ - 1], e, {"C16"})
      [] e.e = "mif" -> FlIf(e["if"] # a.n.cfg.mif, a, {"C26"}, "multicast interface " \o e["if"])
      [] e.e = "bind" ->
            LET a1 == FlIf(e.ip # a.n.cfg.lip \/ (a.n.port # 0 /\ e.port # a.n.port), a, {"C26"}, "bound to " \o e.ip \o " " \o ToString(e.port))
            IN  [a1 EXCEPT !.x.ncon = e.ap]
      [] OTHER -> a

PEffects(b, op) ==      \* effects known once the whole call has been seen
    LET a == PRest(b) IN
    CASE op.k = "pt" ->
            IF IF a.n.cfg.acb = 1 THEN a.x.acb # "no" ELSE PAnnounceDue(a.n.c, op.now)
            THEN LET a1 == FlIf(a.x.acb = "want", a, {"C17"}, "announce callback missing")
                     yes == a.n.cfg.acb = 0 \/ (a.x.acb = "done" /\ a.x.aret # 0)
                     pk == IF a.n.cfg.acb = 0 THEN Pk(0, HEMPTY, 0, TRUE) ELSE Pk(a.x.alen, a.x.ahash, 0, TRUE)
                     c1 == IF yes THEN PQueue(a1.n.c, pk, TRUE).p ELSE a1.n.c
                 IN  [a1 EXCEPT !.n.c = PAnnounced(c1, op.now)]
            ELSE LET z == PTimeoutResend(a.n.c, op.now, Hdr(a.n)) IN [a EXCEPT !.n.c = z.p, !.x.rel = @ \o z.rel]
      [] op.k = "pwm" -> 
            LET a1 == FlIf(a.n.on /\ a.n.c.q # <<>> /\ a.x.ret = -1, a, {"C16"}, "packets left queued without an error")
            IN  [a1 EXCEPT !.x.ret = IF @ = -1 THEN (IF a.n.on \/ a.n.c.q = <<>> THEN 0 ELSE -2) ELSE @]
      [] op.k = "pacc" ->
            LET a1 == FinishAcc(a, op) IN
            IF a1.x.flt # 0 THEN [a1 EXCEPT !.x.ret = a1.x.flt]
            ELSE IF a1.x.cn > 0 THEN [a1 EXCEPT !.x.ret = 0]
            ELSE IF a1.x.full THEN [a1 EXCEPT !.x.ret = -2]
            ELSE FlIf(a1.n.on /\ op.bl > 0, a1, {"C18"}, "a waiting subscriber was not accepted below the maximum")
      [] op.k = "pact" ->
            IF a.n.on THEN [a EXCEPT !.x.ret = -2]
            ELSE IF a.x.flt # 0 THEN [a EXCEPT !.x.ret = a.x.flt]
            ELSE [a EXCEPT !.x.ret = 0, !.n.on = TRUE, !.n.port = IF @ = 0 THEN a.x.ncon ELSE @]
      [] op.k = "pttl" -> [a EXCEPT !.x.ret = IF ~a.n.on \/ a.x.flt # 0 THEN -2 ELSE 0]
      [] op.k = "pdeact" -> PDown(a)
      [] op.k = "pdel" -> LET a1 == PCloseAll(a, DOMAIN a.n.c.con)
                          IN  [a1 EXCEPT !.n.on = FALSE, !.x.ret = 0, !.x.rel = @ \o a1.n.c.q, !.n.c.q = <<>>, !.n.alive = FALSE]
      [] OTHER -> a

Evs(op, e) == SelectSeq(op.ev, LAMBDA v : v.e = e)
SeqSet(s) == {s[j] : j \in 1..Len(s)}
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in SeqSet(s) \cup SeqSet(t) :
                    Cardinality({j \in 1..Len(s) : s[j] = x}) = Cardinality({j \in 1..Len(t) : t[j] = x})
RECURSIVE RemoveOne(_, _)
RemoveOne(s, x) == IF s = <<>> THEN <<>> ELSE IF Head(s) = x THEN Tail(s) ELSE <<Head(s)>> \o RemoveOne(Tail(s), x)

PRetLab(op) == CASE op.k = "pq" -> {"C16", "C06"} [] op.k = "pqx" -> {"C16"} [] op.k = "pwm" -> {"C16"} [] op.k = "pthr" -> {"C06"}
                 [] op.k \in {"pact", "pdeact", "pdel"} -> {"C26"} [] op.k = "pclose" -> {"C10", "C27"} [] op.k = "pacc" -> {"C18"}
                 [] op.k = "pr" -> {"C12", "C27"} [] op.k = "pw" -> {"C27"} [] op.k = "pann" -> {"C17"} [] op.k = "pttl" -> {"C26"} [] OTHER -> {"C23"}

PEnd(a0, op) ==
    LET a == PEffects(a0, op)  n == a.n  c == n.c
        ackl == (IF a.x.hadack THEN {"C05"} \cup MultiP(n) ELSE {}) \cup (IF a.x.hadctl THEN {"C13"} ELSE {})
        byop == CASE op.k = "pt" -> {"C03"} \cup MultiP(n) [] op.k = "pr" -> ackl \cup (IF a.x.trx THEN {"C12"} ELSE {}) \cup CloseL(op, a)
                  [] op.k = "pclose" -> {"C10"} [] op.k = "pw" -> {"C12"} \cup (IF Left(n, op.i, 1) THEN {"C03"} ELSE {}) [] OTHER -> ActL(op) \cup CloseL(op, a)
        pf == Evs(op, "pf")
        rel == SelectSeq(a.x.rel, LAMBDA q : ~q.cp)
        f1 == FlIf(~SameBag([j \in 1..Len(pf) |-> <<pf[j].b, pf[j].len>>], [j \in 1..Len(rel) |-> <<rel[j].b, rel[j].len>>]),
                   a, {"C04"} \cup byop, "released " \o ToString(pf) \o " expected " \o ToString(rel))
        f2 == FlIf(\E j \in 1..Len(pf) : pf[j].ok # 1, f1, {"C04"}, "a payload was released twice, or changed before its release")
        f3 == FlIf(\E j \in 1..Len(pf) : pf[j].ud # 1, f2, {"C23"}, "a payload was released with wrong user data")
        dc == [j \in 1..Len(Evs(op, "dc")) |-> <<Evs(op, "dc")[j].ip, Evs(op, "dc")[j].port>>]
        dc1 == IF Len(dc) > Len(a.x.dc) THEN FoldLeft(Remove, dc, a.x.odc) ELSE dc
        f3b == FlIf(a.x.mrd /\ Evs(op, "trx") = <<>>, f3, {"C12"}, "nothing was read from the connection")
        f3a == FlIf(a.x.mwr /\ Evs(op, "wtry") = <<>>, f3b, {"C12"}, "nothing was written to the connection")
        f4 == FlIf(~SameBag(dc1, a.x.dc), f3a, {"C23"} \cup ActL(op), "disconnect callbacks " \o ToString(dc) \o " expected " \o ToString(a.x.dc))
        ct == [j \in 1..Len(Evs(op, "ctl")) |-> LET v == Evs(op, "ctl")[j] IN [ip |-> v.ip, port |-> v.port, len |-> v.len, h |-> v.h]]
        f5 == FlIf(ct # a.x.ctl, f4, {"C13"} \cup (IF Len(ct) # Len(a.x.ctl) THEN {"C12"} ELSE {}) \cup UNION {OldL(c.con, i) : i \in DOMAIN c.con},
                   "control callbacks " \o ToString(ct) \o " expected " \o ToString(a.x.ctl))
        f6 == FlIf((a.x.ret >= 0 /\ op.r # a.x.ret) \/ (a.x.ret = -2 /\ op.r = 0), f5, PRetLab(op), "returned " \o ToString(op.r) \o " expected " \o ToString(a.x.ret))
        want == IF ~n.on THEN NoFun
                ELSE (MCAST :> [r |-> FALSE, w |-> YN(c.q # <<>>)]) @@ (LISTEN :> [r |-> TRUE, w |-> "no"])
                     @@ [i \in DOMAIN c.con |-> [r |-> TRUE, w |-> YN(Pending(c.con[i].out) > 0)]]
        f7 == PollEnd(f6, want, byop, op)
        g1 == FlIf(op.k = "pttl" /\ n.on /\ a.x.flt = 0 /\ (op.r # 0 \/ Len(Evs(op, "ttl")) # 1 \/ Evs(op, "ttl")[1].v # op.v), f7, {"C26"}, "TTL not set")
        g2 == FlIf(op.k = "pud" /\ op.o # 1, g1, {"C23"}, "user data not kept")
        g3 == FlIf(op.k = "pact" /\ n.on /\ ~a0.n.on /\ (Len(Evs(op, "lst")) # 1 \/ Len(Evs(op, "bind")) # 1 \/ (n.cfg.mif # "0.0.0.0" /\ Len(Evs(op, "mif")) # 1)
                      \/ FdOf(n, LISTEN) # {Evs(op, "lst")[1].fd} \/ Evs(op, "bind")[1].fd # Evs(op, "lst")[1].fd
                      \/ \E d \in FdOf(n, MCAST) : n.fd[d].t # "u"), g2, {"C26"}, "not listening as configured")
        g4 == CASE op.k = "pwm" -> ResFl(g3, op, {WMULTICAST})
                [] op.k = "pw" -> ResFl(g3, op, {WTCP})
                [] op.k = "pr" -> ResFl(g3, op, IF op.i \in a.x.closedi THEN {RDISCONNECT} ELSE {RTCP})
                [] op.k = "pacc" -> ResFl(g3, op, {RACCEPT})
                [] op.k = "pdel" -> FlIf(op.lk # 0, g3, {"C28"}, "deleting the context left " \o ToString(op.lk) \o " allocations behind")
                [] OTHER -> g3
    IN  IF "ob" \notin DOMAIN op THEN g4
        ELSE LET o == op.ob
                 ql == {"C21"} \cup (CASE op.k \in {"pq", "pqx", "pwm"} -> {"C16"} [] op.k = "pt" -> {"C17"} [] OTHER -> {})
                 h1 == FlIf(o.q # Len(c.q) \/ o.ql # Len(c.q), g4, ql, "queued " \o ToString(<<o.q, o.ql>>) \o " expected " \o ToString(Len(c.q)))
                 h2 == FlIf(o.sb # PSendBytes(c), h1, {"C21"} \cup byop, "unsent bytes " \o ToString(o.sb) \o " expected " \o ToString(PSendBytes(c)))
                 h3 == FlIf(o.ac # POwedCount(c), h2, {"C21"} \cup byop \cup (IF op.k = "pwm" THEN {"C04", "C03"} ELSE {}), "owed " \o ToString(o.ac) \o " expected " \o ToString(POwedCount(c)))
                 h4 == FlIf(o.pc # 1 \/ (o.bz = 1) # (Len(c.q) > 0 \/ PSendBytes(c) > 0 \/ POwedCount(c) > 0), h3, {"C21"}, "busy " \o ToString(o.bz) \o " consistent " \o ToString(o.pc))
                 h5 == FlIf(o.sc # Cardinality(DOMAIN c.con) \/ o.so # Cardinality(DOMAIN c.con) + (IF n.on THEN 2 ELSE 0) \/ o.mx # n.cfg.max, h4,
                            {"C18"} \cup CloseL(op, a) \cup ActL(op), "counts " \o ToString(<<o.sc, o.so, o.mx>>) \o " expected " \o ToString(Cardinality(DOMAIN c.con)))
                 \* with equal thresholds, and exactly that many packets in flight, both answers are possible
                 open == c.sus /\ c.s = c.r /\ Len(c.inf) = c.r
                 h5a == IF open THEN [h5 EXCEPT !.n.c.sus = (o.su # 0)] ELSE h5
                 h6 == FlIf(~open /\ (o.su # 0) # c.sus, h5a, {"C06"}, "suspended " \o ToString(o.su) \o " expected " \o ToString(c.sus))
                 h7 == FlSoft(o.nx # PNext(c), h6, {"C15"} \cup (IF op.k = "pann" \/ (op.k = "pt" /\ Evs(op, "acb") # <<>>) THEN {"C17"} ELSE {}) \cup CloseL(op, a)
                                 \cup (IF \E i \in DOMAIN c.con : o.nx \in {PNext([c EXCEPT !.con = Restrict(@, DOMAIN @ \ {i})]), PNext([c EXCEPT !.con = Restrict(@, {i})])} /\ o.nx # -1 THEN {"C09"} ELSE {}),
                            "next timeout " \o ToString(o.nx) \o " expected " \o ToString(PNext(c)))
             IN  h7

(******************************* subscriber ********************************)
SClosed(a, i) ==
    LET z == S!SClose(a.n.c, i) IN [a EXCEPT !.n.c = z.s, !.x.fre = @ \o SetToSeq(z.rel), !.x.closedi = @ \cup {i}]

\* process the first thing still to be processed; b: the buffer allocated for it (0: none, -1: the allocation callback was not seen)
Step1(a, b, op) ==
    LET d == Head(a.x.todo)  a1 == [a EXCEPT !.x.todo = Tail(@)] IN
    IF d.i \notin DOMAIN a1.n.c.con THEN a1
    ELSE IF d.bad THEN [SClosed([a1 EXCEPT !.x.ret = EPROTO, !.n.wild = TRUE], d.i) EXCEPT !.x.todo = <<>>]
    ELSE LET pk == [pid |-> d.pid, len |-> d.len, h |-> d.h, b |-> IF b < 0 THEN 0 ELSE b, c |-> d.i]
             z == S!SReceive(a1.n.c, d.i, pk, op.now, d.tcp)
             a2 == FlIf(z.new /\ b = -1, a1, {"C24", "C01"} \cup MultiS(a1.n) \cup OldL(a1.n.c.con, d.i) \cup (IF d.tcp THEN {"C12"} ELSE {}), "packet " \o ToString(d.pid) \o " was dropped")
         IN  [a2 EXCEPT !.n.c = z.s, !.x.newr = @ \/ z.inc]
IsNew(a) == LET d == Head(a.x.todo) IN d.i \in DOMAIN a.n.c.con /\ ~d.bad /\ ~S!SDuplicate(a.n.c.con[d.i], d.pid)

RECURSIVE SkipOld(_, _)
SkipOld(a, op) == IF a.x.todo = <<>> \/ Head(a.x.todo).bad \/ IsNew(a) THEN a ELSE SkipOld(Step1(a, 0, op), op)
RECURSIVE UntilReady(_, _, _)
UntilReady(a, n, op) == IF a.x.todo = <<>> \/ Head(a.x.todo).bad \/ (a.x.newr /\ Len(a.n.c.ready) >= n) THEN a
                        ELSE UntilReady(Step1(a, IF a.n.cfg.al = 1 THEN -1 ELSE 0, op), n, op)
RECURSIVE AllTodo(_, _)
AllTodo(a, op) == IF a.x.todo = <<>> THEN a ELSE AllTodo(Step1(a, IF a.n.cfg.al = 1 THEN -1 ELSE 0, op), op)

FinishDatagram(a0, op) ==
    LET a == AllTodo(a0, op)
        a1 == FlIf(a.x.ann # <<>>, a, {"C07"} \cup MultiS(a.n), "announce callback missing for " \o ToString(a.x.ann))
        a2 == FlIf(a1.x.want # <<>> /\ a1.x.flt = 0 /\ Cardinality(DOMAIN a1.n.c.con) < a1.n.cfg.max /\ a1.x.pcon.fd = -1, a1, {"C07", "C18"}, "no connection to " \o ToString(a1.x.want))
        a3 == FlIf(a2.x.pcon.fd # -1, a2, {"C07", "C14", "C18"}, "a connection under way is not registered")
    IN  [a3 EXCEPT !.x.ann = <<>>, !.x.want = <<>>, !.x.pcon = NoAcc]

PkKey(pk) == <<pk.len, IF pk.len = 0 THEN 0 ELSE pk.h>>
CmdTodo(i, cm) == [j \in 1..Len(cm) |-> IF cm[j].t = 1 THEN [i |-> i, bad |-> FALSE, pid |-> cm[j].pid, len |-> cm[j].len, h |-> cm[j].h, tcp |-> TRUE]
                                        ELSE [i |-> i, bad |-> TRUE, pid |-> 0, len |-> 0, h |-> 0, tcp |-> TRUE]]
Only(s, t) == SelectSeq(s, LAMBDA c : c.t = t)
WireLabS(done, cm, n) ==
    (IF ~SameCmds(Only(done, 2), Only(cm, 2)) THEN {"C05", "C19"} \cup MultiS(n) ELSE {})
    \cup (IF ~SameCmds(Only(done, 3), Only(cm, 3)) THEN {"C13"} ELSE {})
    \cup (IF Len(done) # Len(cm) \/ \E j \in 1..Len(cm) : cm[j].t = 0 THEN {"C12"} ELSE {})
    \cup (IF SameCmds(Only(done, 2), Only(cm, 2)) /\ SameCmds(Only(done, 3), Only(cm, 3)) THEN {"C13", "C12"} ELSE {})

SBegin(n, op) ==
    LET a == [n |-> n, x |-> X0, f |-> {}] IN
    CASE op.k = "sctl" ->
            LET cs == IF op.by = "n" THEN {i \in S!Established(n.c) : n.c.con[i].node = op.node} ELSE S!ConOf(n.c, op.ip, op.port) \cap S!Established(n.c)
                \* several publishers with the same node: which of them is meant is not specified, the one that wants to write now is taken
                seen == {op.ev[j].i : j \in {j \in 1..Len(op.ev) : op.ev[j].e = "pm"}} \cap cs
                one == IF Cardinality(cs) = 1 THEN cs ELSE seen
            IN  IF op.nul = 1 \/ op.len = 0 THEN [a EXCEPT !.x.ret = EINVAL]
                ELSE IF cs = {} THEN [a EXCEPT !.x.ret = ENOTCONN]
                ELSE IF Cardinality(one) # 1 THEN [a EXCEPT !.n.dead = TRUE]
                ELSE LET i == CHOOSE i \in one : TRUE  z == S!SControl(n.c, i, op.len, op.h)
                     IN  [a EXCEPT !.n.c = z.s, !.x.ret = IF z.ok THEN 0 ELSE ENOMEM]
      [] op.k = "sclose" -> IF op.i \in DOMAIN n.c.con THEN SClosed([a EXCEPT !.x.ret = 0], op.i) ELSE [a EXCEPT !.x.ret = -2]
      [] op.k = "sud" -> [a EXCEPT !.x.ret = 0]
      [] op.k \in {"sr", "sw"} -> IF op.i \in DOMAIN n.c.con THEN [a EXCEPT !.x.wascon = (n.c.con[op.i].m = "connecting"), !.x.mrd = (op.k = "sr" /\ n.c.con[op.i].m # "connecting"),
                                                                      !.x.mwr = (op.k = "sw" /\ n.c.con[op.i].m # "connecting" /\ Pending(n.c.con[op.i].out) > 0)] ELSE [a EXCEPT !.x.ret = -2]
      [] OTHER -> a

RECURSIVE SCloseAll(_, _)
SCloseAll(a, T) == IF T = {} THEN a ELSE LET i == CHOOSE i \in T : TRUE IN SCloseAll(SClosed(a, i), T \ {i})
SDown(a) == LET a1 == SCloseAll(a, DOMAIN a.n.c.con)        \* packets that the application has not taken are given up
            IN  [a1 EXCEPT !.n.on = FALSE, !.x.ret = 0, !.x.fre = @ \o a1.n.c.ready, !.n.c.ready = <<>>]
SInner(n, op) == IF op.k = "sdeact" THEN SDown([n |-> n, x |-> X0, f |-> {}]) ELSE SBegin(n, op)

SubEv(a0, e, op) ==
    LET a == GenEv(a0, e, op) IN
    CASE e.e = "mrx" ->
            LET a1 == FlIf(e.sz > 0 /\ e.sz <= HDR + MAXPAYLOAD /\ e.cut = 1, FinishDatagram(a, op), {"C02"}, "a datagram of " \o ToString(e.sz) \o " bytes was cut short") IN
            IF e.sz < 0 THEN (IF e.er = EAGAIN THEN a1 ELSE [a1 EXCEPT !.x.ret = e.er])
            ELSE IF e.sz = 0 THEN [a1 EXCEPT !.x.ret = -1, !.x.flt = -1]
            ELSE IF e.sz < HDR THEN [a1 EXCEPT !.x.bad = TRUE, !.n.sawbad = TRUE, !.n.wild = TRUE]
            ELSE IF e.sz < HDR + e.plen THEN [a1 EXCEPT !.x.bad = TRUE, !.n.sawbad = TRUE, !.n.wild = TRUE]
            ELSE LET ip == IF e.ip = "0.0.0.0" THEN e.src ELSE e.ip
                     cs == S!ConOf(a1.n.c, ip, e.port)
                     ann == [ip |-> ip, port |-> e.port, node |-> e.node, len |-> e.plen, h |-> e.h]
                     out(r) == [a1 EXCEPT !.x.outs = Append(@, r)]      \* -1: no documented code fits
                 IN  IF cs = {} THEN
                        (IF e.pid # 0 THEN out(-1)
                         ELSE IF a1.n.cfg.ann = 1 THEN [out(-1) EXCEPT !.x.ann = <<ann>>] ELSE [out(-1) EXCEPT !.x.want = <<ann>>])
                     ELSE LET i == CHOOSE i \in cs : TRUE IN
                          IF a1.n.c.con[i].m # "established" THEN out(RNOTREADY)
                          ELSE IF e.pid = 0 THEN out(RMULTICAST)
                          ELSE [out(RMULTICAST) EXCEPT !.x.todo = <<[i |-> i, bad |-> FALSE, pid |-> e.pid, len |-> e.plen, h |-> e.h, tcp |-> FALSE]>>]
      [] e.e = "ann" ->
            LET a1 == FlIf(e.cx # 1, a, {"C23"}, "announce callback for another context") IN
            IF a.x.ann = <<>> THEN Fl(a1, {"C07"} \cup MultiS(a.n), "announce callback without reason")
            ELSE LET w == a.x.ann[1]
                     ok == e.ip = w.ip /\ e.port = w.port /\ e.node = w.node /\ e.len = w.len /\ (e.len = 0 \/ e.h = w.h)
                     a2 == FlIf(~ok, a1, {"C07"} \cup (IF e.ip = w.ip /\ e.port = w.port /\ e.node = w.node THEN {"C17", "C02"} ELSE {}), "announce callback " \o ToString(e) \o " expected " \o ToString(w))
                 IN  [a2 EXCEPT !.x.ann = <<>>, !.x.want = IF e.r # 0 THEN <<w>> ELSE <<>>]
      [] e.e = "con" ->
            IF a.x.want = <<>> THEN Fl(a, {"C07"} \cup MultiS(a.n), "connects without reason")
            ELSE LET w == a.x.want[1]
                     a1 == FlIf(e.ip # w.ip \/ e.port # w.port, a, {"C07"}, "connects to " \o e.ip \o " " \o ToString(e.port))
                     a2 == FlIf(Cardinality(DOMAIN a.n.c.con) >= a.n.cfg.max, a1, {"C18"}, "connects beyond the maximum")
                 IN  IF e.r \in {0, EINPROGRESS} THEN [a2 EXCEPT !.x.pcon = [fd |-> e.fd, cid |-> e.c, ip |-> w.ip, port |-> w.port]]
                     ELSE [a2 EXCEPT !.x.want = <<>>]
      [] e.e = "pa" /\ a.x.pcon.fd = e.fd ->
            IF e.i \in DOMAIN a.n.c.con \/ e.i >= a.n.cfg.max THEN Fl(a, {"C18", "C14"}, "connection placed in slot " \o ToString(e.i))
            ELSE [a EXCEPT !.n.c = S!SConnect(@, e.i, a.x.pcon.cid, a.x.pcon.ip, a.x.pcon.port, a.x.want[1].node, e.i \in a.n.used), !.n.used = @ \cup {e.i},
                           !.x.outs = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)] = RNEW],
                           !.x.pcon = NoAcc, !.x.want = <<>>, !.n.many = @ \/ Cardinality(DOMAIN a.n.c.con) > 0]
      [] e.e = "soe" -> [a EXCEPT !.x.soe = e.v]
      [] e.e = "cmp" ->
            LET a1 == FlIf(e.cx # 1, a, {"C23"}, "completion callback for another context")
                ok == op.k = "sw" /\ op.i \in DOMAIN a.n.c.con /\ a.n.c.con[op.i].m = "connecting" /\ a.x.cmp = 0
                      /\ e.ip = a.n.c.con[op.i].ip /\ e.port = a.n.c.con[op.i].port /\ e.node = a.n.c.con[op.i].node
            IN  IF ~ok THEN Fl(a1, {"C07"}, "subscription complete callback " \o ToString(e))
                ELSE [a1 EXCEPT !.x.cmp = @ + 1, !.n.c = S!SComplete(@, op.i)]
      [] e.e = "al" ->
            LET a1 == SkipOld(FlIf(e.ud # 1, a, {"C23"}, "allocation with wrong user data"), op) IN
            IF a1.x.todo = <<>> \/ Head(a1.x.todo).bad THEN Fl(a1, {"C24", "C01"} \cup MultiS(a.n), "allocated a buffer without a new packet")
            ELSE Step1(FlIf(e.len # Head(a1.x.todo).len, a1, {"C24", "C02"}, "allocated " \o ToString(e.len) \o " bytes"), e.b, op)
      [] e.e = "rdy" ->
            LET a1 == UntilReady(FlIf(e.cx # 1, a, {"C23"}, "ready callback for another context"), e.n, op)
                a2 == FlIf(~a1.x.newr, a1, {"C01"} \cup MultiS(a.n), "packet ready callback without a new available packet")
                a3 == FlIf(e.n # Len(a1.n.c.ready), a2, {"C01"} \cup MultiS(a.n), "packet ready callback with " \o ToString(e.n) \o " available, expected " \o ToString(Len(a1.n.c.ready)))
            IN  [a3 EXCEPT !.x.newr = FALSE]
      [] e.e = "dsp" ->
            LET r == a.n.c.ready IN
            IF r = <<>> THEN Fl(a, {"C01"} \cup MultiS(a.n), "a packet is available that should not be")
            ELSE LET known == {PkKey(r[j]) : j \in 1..Len(r)} \cup UNION {{PkKey(a.n.c.con[i].held[x]) : x \in DOMAIN a.n.c.con[i].held} : i \in DOMAIN a.n.c.con}
                     key == <<e.len, IF e.len = 0 THEN 0 ELSE e.h>>
                     a1 == FlIf(key # PkKey(r[1]), a, (IF key \in known THEN {"C01"} ELSE {"C02"}) \cup MultiS(a.n) \cup UNION {OldL(a.n.c.con, r[j].c) : j \in 1..Len(r)},
                                "packet handed over " \o ToString(key) \o " expected " \o ToString(r[1]))
                     a2 == FlIf(e.lv # 1, a1, {"C24"}, "packet handed over after its payload was released")
                     a3 == FlIf(a.n.cfg.al = 1 /\ e.b # r[1].b, a2, {"C24"}, "packet handed over in another buffer")
                 IN  [a3 EXCEPT !.n.c = S!SDispatch(@), !.x.ndsp = @ + 1, !.x.fre = IF e.kp = 1 THEN @ ELSE Append(@, r[1])]
      [] e.e = "dspr" -> Fl(a, {"C01", "C24"}, "marking a packet dispatched returned " \o ToString(e.r))
      [] e.e = "ttx" /\ e.n > 0 ->
            LET i == IdxOf(a.n, e.fd) IN
            IF i \notin DOMAIN a.n.c.con THEN Fl(a, {"C12", "C10"}, "wrote on something that is no connection")
            ELSE IF e.n > Pending(a.n.c.con[i].out)
            THEN Fl(a, {"C12", "C05", "C13"} \cup (IF Len(Only(e.cm, 2)) > Len(Only(a.n.c.con[i].out.q, 2)) THEN {"C19"} ELSE {}) \cup OldL(a.n.c.con, i) \cup MultiS(a.n), "wrote " \o ToString(e.n) \o " bytes, had " \o ToString(Pending(a.n.c.con[i].out)))
            ELSE LET w == S!SWrote(a.n.c, i, e.n)
                 IN  FlIf(~SameCmds(w.done, e.cm), [a EXCEPT !.n.c = w.s], WireLabS(w.done, e.cm, a.n) \cup OldL(a.n.c.con, i),
                          "wrote " \o ToString(e.cm) \o " expected " \o ToString(w.done))
      [] e.e = "trx" ->
            LET i == IdxOf(a.n, e.fd) IN
            IF i \notin DOMAIN a.n.c.con THEN Fl(a, {"C12", "C10"}, "read from something that is no connection")
            ELSE IF e.n = 0 \/ (e.n = -1 /\ e.er # EAGAIN) THEN SClosed(AllTodo(a, op), i)
            ELSE [a EXCEPT !.x.todo = @ \o CmdTodo(i, e.cm), !.x.trx = TRUE]
      [] e.e = "fr" ->
            LET a1 == FlIf(e.ud # 1, a, {"C23", "C24"}, "payload buffer released with wrong user data")
            IN  FlIf(e.lv # 1, a1, {"C24"}, "a payload buffer was released that is not the library's")
      [] e.e = "call" -> IF e.k = "sd" THEN [a EXCEPT !.n.nest = TRUE] 
                         ELSE LET b == Nested(a, SInner(a.n, e @@ [now |-> op.now, nul |-> 0, ev |-> <<>>]))
                              IN  IF e.k = "sdeact" THEN [b EXCEPT !.x.want = <<>>, !.x.outs = <<-1>>] ELSE b      \* an inactive context connects to nobody
      [] e.e = "cret" -> NestedRet(a, e, {"C13"})
      [] e.e = "bind" -> FlIf(e.port # a.n.cfg.gport \/ e.ip \notin {"0.0.0.0", a.n.cfg.grp}, a, {"C26"}, "bound to " \o e.ip \o " " \o ToString(e.port))
      [] OTHER -> a

SEffects(a0, op) ==
    LET a == FinishDatagram(a0, op) IN
    CASE op.k = "srm" -> [a EXCEPT !.x.ret = IF a.x.bad /\ @ = -1 THEN EPROTO ELSE IF a.x.flt = 0 /\ @ = -1 /\ a.n.on THEN 0 ELSE @]
      [] op.k = "st" -> [a EXCEPT !.n.c = S!STimeout(@, op.now)]
      [] op.k = "sw" ->
            LET failed == a.x.flt # 0 \/ a.x.soe \notin {-1, 0}
                a1 == FlIf(a.x.cmp # 0 /\ failed, a, {"C07"}, "subscription complete callback for a failed connection")
            IN  IF op.i \in DOMAIN a.n.c.con /\ a.n.c.con[op.i].m = "connecting"
                THEN (IF failed THEN SClosed(a1, op.i)
                      ELSE [FlIf(a.n.cfg.cmp = 1, a1, {"C07"}, "subscription complete callback missing") EXCEPT !.n.c = S!SComplete(@, op.i)])
                ELSE a1
      [] op.k = "sd" -> FlIf(a.x.ndsp # 1, a, {"C01"}, "no packet handed over")
      [] op.k = "sact" ->
            IF a.n.on THEN [a EXCEPT !.x.ret = -2]
            ELSE IF a.x.flt # 0 THEN [a EXCEPT !.x.ret = a.x.flt]
            ELSE [FlIf(Len(Evs(op, "mem")) # 1 \/ Evs(op, "mem")[1].grp # a.n.cfg.grp \/ Evs(op, "mem")[1]["if"] # a.n.cfg.mif \/ Len(Evs(op, "bind")) # 1
                       \/ FdOf(a.n, MCAST) # {Evs(op, "mem")[1].fd} \/ Evs(op, "bind")[1].fd # Evs(op, "mem")[1].fd, a, {"C26"}, "group not joined as configured")
                  EXCEPT !.x.ret = 0, !.n.on = TRUE]
      [] op.k \in {"sdeact", "sdel"} ->
            [SDown(a) EXCEPT !.n.alive = (op.k = "sdeact")]
      [] OTHER -> a

SRetLab(op) == CASE op.k = "sctl" -> {"C13"} [] op.k \in {"sact", "sdeact", "sdel"} -> {"C26"} [] op.k = "sclose" -> {"C10", "C27"} [] op.k = "srm" -> {"C22"}
                 [] op.k = "sr" -> {"C12", "C27"} [] op.k = "sw" -> {"C27"} [] OTHER -> {"C23"}

SEnd(a0, op) ==
    LET a == SEffects(a0, op)  n == a.n  c == n.c
        byop == CASE op.k = "st" -> {"C05"} \cup MultiS(n) [] op.k = "sctl" -> {"C13"} [] op.k = "sclose" -> {"C10"}
                  [] op.k = "sw" -> {"C12"} \cup (IF Left(n, op.i, 2) THEN {"C05"} ELSE {}) \cup (IF Left(n, op.i, 3) THEN {"C13"} ELSE {})
                  [] op.k = "srm" -> MultiS(n) [] OTHER -> ActL(op) \cup CloseL(op, a)
        fr == Evs(op, "fr")
        f1 == FlIf(n.cfg.al = 1 /\ ~SameBag([j \in 1..Len(fr) |-> <<fr[j].b, fr[j].len>>], [j \in 1..Len(a.x.fre) |-> <<a.x.fre[j].b, a.x.fre[j].len>>]),
                   a, {"C24"} \cup ActL(op) \cup CloseL(op, a), "buffers released " \o ToString(fr) \o " expected " \o ToString(a.x.fre))
        f2 == FlIf(n.cfg.rdy = 1 /\ a.x.newr, f1, {"C01"} \cup MultiS(n), "packet ready callback missing")
        f2b == FlIf(a.x.mrd /\ Evs(op, "trx") = <<>>, f2, {"C12"}, "nothing was read from the connection")
        f2a == FlIf(a.x.mwr /\ Evs(op, "wtry") = <<>>, f2b, {"C12"}, "nothing was written to the connection")
        f3 == FlIf((a.x.ret >= 0 /\ op.r # a.x.ret) \/ (a.x.ret = -2 /\ op.r = 0), f2a, SRetLab(op), "returned " \o ToString(op.r) \o " expected " \o ToString(a.x.ret))
        want == (IF n.on THEN MCAST :> [r |-> TRUE, w |-> "no"] ELSE NoFun)
                @@ [i \in DOMAIN c.con |-> IF c.con[i].m = "connecting" THEN [r |-> FALSE, w |-> "yes"] ELSE [r |-> TRUE, w |-> YN(Pending(c.con[i].out) > 0)]]
        f4 == PollEnd(f3, want, byop, op)
        f5 == FlIf(op.k = "sud" /\ op.o # 1, f4, {"C23"}, "user data not kept")
        f6 == CASE op.k = "srm" -> ResFl(f5, op, IF -1 \in SeqSet(a.x.outs) THEN {} ELSE SeqSet(a.x.outs))
                [] op.k = "sr" -> ResFl(f5, op, IF op.i \in a.x.closedi THEN {RDISCONNECT} ELSE {RTCP})
                [] op.k = "sw" -> ResFl(f5, op, IF a0.x.wascon THEN {WCOMPLETE} ELSE {WTCP})
                [] op.k = "sdel" -> FlIf(op.lk # 0, f5, {"C28"}, "deleting the context left " \o ToString(op.lk) \o " allocations behind")
                [] OTHER -> f5
    IN  IF "ob" \notin DOMAIN op THEN f6
        ELSE LET o == op.ob
                 cl == CloseL(op, a) \cup ActL(op)
                 g1 == FlIf(o.dr # Len(c.ready), f6, {"C01"} \cup cl \cup MultiS(n) \cup (IF op.k = "sr" THEN {"C12"} ELSE {}), "available " \o ToString(o.dr) \o " expected " \o ToString(Len(c.ready)))
                 g2 == FlIf(o.pc # Cardinality(DOMAIN c.con) \/ o.so # Cardinality(DOMAIN c.con) + (IF n.on THEN 1 ELSE 0) \/ o.mx # n.cfg.max, g1,
                            {"C18"} \cup cl, "counts " \o ToString(<<o.pc, o.so, o.mx>>) \o " expected " \o ToString(Cardinality(DOMAIN c.con)))
                 g3 == FlSoft(o.nx # S!SNext(c), g2, {"C15"} \cup cl \cup (IF op.k = "srm" THEN {"C19", "C05"} ELSE {}) \cup byop
                                 \cup (IF \E i \in DOMAIN c.con : o.nx \in {S!SNext([c EXCEPT !.con = Restrict(@, DOMAIN @ \ {i})]), S!SNext([c EXCEPT !.con = Restrict(@, {i})])} /\ o.nx # -1 THEN {"C08"} ELSE {}),
                            "next timeout " \o ToString(o.nx) \o " expected " \o ToString(S!SNext(c)))
             IN  g3

(************************* end-to-end monitor (C25) ************************)
\* cid -> [s, p: nodes, ip, port, est, acc, up, owed: seq of <<pid, len, h>>, first, got];  fd: descriptor -> cid;  del: node -> seq of <<len, h>>
E0 == [cid |-> NoFun, fd |-> NoFun, del |-> NoFun, out |-> NoFun]
EGot(EE, cid, pid) == [EE EXCEPT !.cid[cid].got = @ \cup {pid}, !.cid[cid].first = IF @ = 0 THEN pid ELSE @]
EEv(EE, e, n) ==
    CASE e.e = "con" /\ e.r \in {0, EINPROGRESS} ->
            [EE EXCEPT !.cid = (e.c :> [s |-> n, p |-> -1, ip |-> e.ip, port |-> e.port, est |-> FALSE, acc |-> FALSE, up |-> TRUE, owed |-> <<>>, first |-> 0, got |-> {}]) @@ @,
                       !.fd = (e.fd :> e.c) @@ @]
      [] e.e = "soe" /\ e.v = 0 /\ e.fd \in DOMAIN EE.fd -> [EE EXCEPT !.cid[EE.fd[e.fd]].est = TRUE]
      [] e.e = "acc" /\ e.r = 0 /\ e.c \in DOMAIN EE.cid -> [EE EXCEPT !.cid[e.c].acc = TRUE, !.cid[e.c].p = n, !.fd = (e.fd :> e.c) @@ @]
      [] e.e = "cl" /\ e.fd \in DOMAIN EE.fd -> [EE EXCEPT !.cid[EE.fd[e.fd]].up = FALSE]
      [] e.e = "mtx" /\ e.r = 0 /\ e.pid # 0 ->
            [EE EXCEPT !.cid = [c \in DOMAIN @ |-> IF @[c].p = n /\ @[c].acc /\ @[c].up THEN [@[c] EXCEPT !.owed = Append(@, <<e.pid, e.len, e.h>>)] ELSE @[c]]]
      [] e.e = "mrx" /\ e.sz >= HDR ->
            LET ip == IF e.ip = "0.0.0.0" THEN e.src ELSE e.ip
                cs == {c \in DOMAIN EE.cid : EE.cid[c].s = n /\ EE.cid[c].est /\ EE.cid[c].up /\ EE.cid[c].ip = ip /\ EE.cid[c].port = e.port}
            IN  IF e.pid = 0 \/ cs = {} THEN EE ELSE EGot(EE, CHOOSE c \in cs : TRUE, e.pid)
      [] e.e = "trx" /\ e.c \in DOMAIN EE.cid -> IF EE.cid[e.c].s = n THEN FoldLeft(LAMBDA X, m : IF m.t = 1 THEN EGot(X, e.c, m.pid) ELSE X, EE, e.cm) ELSE EE
      [] e.e = "dsp" -> [EE EXCEPT !.del = (n :> Append(IF n \in DOMAIN @ THEN @[n] ELSE <<>>, <<e.len, e.h>>)) @@ @]
      [] e.e = "cret" /\ e.k = "pq" /\ e.r = 0 -> [EE EXCEPT !.out = (n :> ((IF n \in DOMAIN @ THEN @[n] ELSE {}) \cup {e.b})) @@ @]
      [] e.e = "pf" -> [EE EXCEPT !.out = IF n \in DOMAIN @ THEN [@ EXCEPT ![n] = @ \ {e.b}] ELSE @]
      [] OTHER -> EE
EOp(EE, op) ==
    LET E1 == FoldLeft(LAMBDA X, e : EEv(X, e, op.n), EE, op.ev)
    IN  CASE op.k = "pq" /\ op.r = 0 -> [E1 EXCEPT !.out = (op.n :> ((IF op.n \in DOMAIN @ THEN @[op.n] ELSE {}) \cup {op.b})) @@ @]
          [] op.k = "pdel" -> E1
          [] OTHER -> E1
\* the known findings, told apart from everything else by what the subscriber received first
KF1(c) == c.first # 0 /\ \E j \in 1..Len(c.owed) : c.owed[j][1] < c.first
KF2(c) == c.first # 0 /\ c.owed # <<>> /\ \E x \in (c.first + 1)..(c.owed[1][1] - 1) : x \notin c.got
ESettled(EE, op) ==
    LET Check(cid) ==
            LET c == EE.cid[cid]
                need == IF KF2(c) THEN <<>> ELSE SelectSeq(c.owed, LAMBDA x : x[1] >= c.first)
                want == [j \in 1..Len(need) |-> <<need[j][2], need[j][3]>>]
                del == IF c.s \in DOMAIN EE.del THEN EE.del[c.s] ELSE <<>>
                got == SelectSeq(del, LAMBDA x : x \in SeqSet(want))
            IN  IF ~(c.up /\ c.est /\ c.acc) THEN {}
                ELSE IF got = want THEN {}
                ELSE {<<{"C25"}, "connection " \o ToString(cid) \o " delivered " \o ToString(got) \o " expected " \o ToString(want)>>}
    IN  UNION {Check(cid) : cid \in DOMAIN EE.cid}
        \cup (IF op.r = 1 THEN {} ELSE {<<{"C25"}, "the system does not come to rest">>})
        \cup (IF \A n \in DOMAIN EE.out : EE.out[n] = {} THEN {} ELSE {<<{"C25", "C04"}, "payloads not released: " \o ToString(EE.out)>>})
EKnown(EE) == {<<"KF2", cid>> : cid \in {x \in DOMAIN EE.cid : EE.cid[x].up /\ EE.cid[x].est /\ EE.cid[x].acc /\ KF2(EE.cid[x])}}
         \cup {<<"KF1", cid>> : cid \in {x \in DOMAIN EE.cid : EE.cid[x].up /\ EE.cid[x].est /\ EE.cid[x].acc /\ KF1(EE.cid[x]) /\ ~KF2(EE.cid[x])}}

(******************************** behaviour ********************************)
NewNode(op) == [kind |-> IF op.k = "pnew" THEN "p" ELSE "s", cfg |-> op.cfg, on |-> FALSE, alive |-> TRUE, dead |-> op.r # 0, fd |-> NoFun, used |-> {}, many |-> FALSE,
                sawbad |-> FALSE, soft |-> FALSE, wild |-> FALSE, nest |-> FALSE, mb |-> op.mm, pk |-> 0, port |-> IF op.k = "pnew" THEN op.cfg.lport ELSE 0, c |-> IF op.k = "pnew" THEN PubInit ELSE S!SubInit]
NewFails(op) == IF op.cfg.bad = 1
           THEN (IF op.r = 0 THEN {<<{"C26"}, "created a context with a bad address">>} ELSE {})
           \cup (IF op.r # 0 /\ op.mem[1] # 0 THEN {<<{"C28"}, "a context that could not be created left " \o ToString(op.mem[1]) \o " allocations behind">>} ELSE {})
           ELSE (IF op.r # 0 THEN {<<{"C26"}, "creating a context returned " \o ToString(op.r)>>} ELSE {})
           \cup (IF op.r = 0 /\ op.cfg.rnd = 0 /\ op.cfg.nid # op.cfg.node THEN {<<{"C02"}, "node id not kept">>} ELSE {})
           \cup (IF op.r = 0 /\ op.ob.mx # op.cfg.max THEN {<<{"C18"}, "maximum is " \o ToString(op.ob.mx)>>} ELSE {})
           \cup (IF op.r = 0 /\ op.ob.nx # -1 THEN {<<{"C15"}, "a timeout is pending in a new context">>} ELSE {})
           \cup (IF op.ev # <<>> THEN {<<{"C26"}, "creating a context opens or registers something">>} ELSE {})

\* what a context has to remember, in packets, debts and connections; pk is the most it ever was, mb what an idle context needs.
\* A list node, a record and a payload for each is fair, and so are lists of spare ones; what is held must not grow otherwise.
Load(n) == LET c == n.c IN
    IF n.kind = "p" THEN Len(c.q) + Len(c.inf) + POwedCount(c) + Cardinality(DOMAIN c.con)
    ELSE Len(c.ready) + SumOf([i \in DOMAIN c.con |-> 1 + Cardinality(DOMAIN c.con[i].held) + Cardinality(DOMAIN c.con[i].ack)], DOMAIN c.con)
Grown(a, op) ==
    LET pk == Max0(a.n.pk, Load(a.n) + Len(op.ev))
    IN  FlIf(op.mm > a.n.mb + 4 * pk + 16, [a EXCEPT !.n.pk = pk], {"C28"}, ToString(op.mm) \o " allocations for a load that never was above " \o ToString(pk))
Do(n, op) == Grown(IF n.kind = "p" THEN PEnd(FoldLeft(LAMBDA a, e : PubEv(a, e, op), PBegin(n, op), op.ev), op)
                   ELSE SEnd(FoldLeft(LAMBDA a, e : SubEv(a, e, op), SBegin(n, op), op.ev), op), op)

Report(w, op, x) == PrintT("@@" \o ToString(<<w, Traces[k].id, l + 1, op.k, op.n, x>>))

Init == /\ k \in 1..NTraces
        /\ l = 0
        /\ N = NoFun
        /\ E = E0
        /\ G = 0

(********************************* the log *********************************)
\* A level outside 0..6 is refused and changes nothing; the installed macros write exactly the messages up to the level;
\* no call writes a message beyond it. That the level influences nothing else is what the rest of this module checks: no
\* other operator mentions G.
IsLevel(v) == v \in 0..6
LogFails(op) ==
    CASE op.k = "log" -> IF IsLevel(op.v) = (op.r = 0) THEN {} ELSE {<<{"C31"}, "setting log level " \o ToString(op.v) \o " returned " \o ToString(op.r)>>}
      [] op.k = "logmsg" -> (IF op.got = [j \in 1..(2 * G) |-> ((j - 1) % G) + 1] THEN {} ELSE {<<{"C31"}, "at log level " \o ToString(G) \o " messages of these levels were written: " \o ToString(op.got)>>})
                       \cup (IF op.bad = 0 THEN {} ELSE {<<{"C31"}, "writing a message " \o (IF op.bad % 2 = 1 THEN "changed errno" ELSE "garbled it")>>})
      [] "lg" \in DOMAIN op -> IF op.lg <= G THEN {} ELSE {<<{"C31"}, "a message of level " \o ToString(op.lg) \o " at log level " \o ToString(G)>>}
      [] OTHER -> {}

Next ==
    /\ l < Len(Traces[k].ops)
    /\ LET op == Traces[k].ops[l + 1] IN
        /\ l' = l + 1
        /\ k' = k
        /\ G' = IF op.k = "log" /\ IsLevel(op.v) THEN op.v ELSE G
        /\ \A x \in LogFails(op) : Report("FAIL", op, x)
        /\ IF op.k \in {"log", "logmsg"} THEN
                /\ N' = N
                /\ E' = E
           ELSE IF op.k = "settled" THEN
                /\ N' = N
                /\ E' = E
                /\ \A x \in ESettled(E, op) : Report("FAIL", op, x)
                /\ \A x \in EKnown(E) : Report("KNOWN", op, x)
           ELSE /\ E' = EOp(E, op)
                /\ IF op.k \in {"pnew", "snew"} THEN
                        /\ N' = (op.n :> NewNode(op)) @@ N
                        /\ \A x \in NewFails(op) : Report("FAIL", op, x)
                   ELSE IF N[op.n].dead THEN N' = N
                   ELSE LET a == Do(N[op.n], op)
                        IN  /\ N' = [N EXCEPT ![op.n] = [a.n EXCEPT !.dead = @ \/ \E x \in a.f : "~" \notin x[1]]]
                            \* a node that a peer has misbehaved towards, or that was called from its own callbacks
                            /\ a.n.dead \/ \A x \in a.f : Report("FAIL", op, <<(x[1] \ {"~"}) \cup (IF a.n.wild THEN {"C29"} ELSE {}) \cup (IF a.n.nest THEN {"C30"} ELSE {}), x[2]>>)

Spec == Init /\ [][Next]_vars

\* the reference states themselves stay sane
CoreInv == \A i \in DOMAIN N : N[i].dead \/ (IF N[i].kind = "p" THEN PubInv(N[i].c) ELSE S!SubInv(N[i].c)) \/ (PrintT("##" \o ToString(<<Traces[k].id, l, i>>)) /\ FALSE)
=============================================================================
