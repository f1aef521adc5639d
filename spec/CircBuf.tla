------------------------------ MODULE CircBuf ------------------------------
(***************************************************************************)
(* The byte queue of a connection (circular_buffer.h) as a bounded FIFO.   *)
(*   size  bytes of storage; the queue holds at most size - 1              *)
(*   q     the bytes stored, oldest first, as <<value, place in storage>>  *)
(*   pos   where the front of a ring buffer would be (only used to         *)
(*         enumerate wrap positions; the check does not look at it)        *)
(*                                                                         *)
(* GenSpec enumerates every fill level and wrap position with every        *)
(* operation and prints the transitions, from which tools/models.py makes  *)
(* walks for harness/circ.c.  CheckSpec checks the recorded results; it    *)
(* leaves open how the queue places bytes, as long as what it hands out    *)
(* lies in its storage and does not overlap bytes still stored.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS SIZES

HUGE   == 2147483647
ENOMEM == 12
EINVAL == 22
UNSET  == 999999

Min(a, b) == IF a < b THEN a ELSE b
First(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n)  == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Vals(s)     == [i \in 1..Len(s) |-> s[i][1]]
Places(s)   == {s[i][2] : i \in 1..Len(s)}
Val(v, i)   == ((v + i - 2) % 250) + 1        \* the i-th value written from v on
Cap(st)     == st.size - 1

Alloc(st, n, v, place)  == [st EXCEPT !.q = @ \o [i \in 1..n |-> <<Val(v, i), place[i]>>]]
CanAlloc(st, n)         == n <= Cap(st) - Len(st.q)
TrimTo(st, n)           == [st EXCEPT !.q = First(@, n)]
FreeN(st, n)            == [st EXCEPT !.q = Drop(@, n), !.pos = IF n >= Len(st.q) THEN 0 ELSE (@ + n) % st.size]
ReadAt(st, f, n)        == First(Drop(st.q, f), n)

VARIABLES k, l, st
vars == <<k, l, st>>

(***************************** generation **********************************)
N(z) == 0..(z.size + 1) \cup {HUGE}
Ops(s) == {[o |-> o, n |-> n, f |-> 0, m |-> 0] : o \in {"al", "tr", "fr", "rd", "rs"}, n \in N(s)}
     \cup {[o |-> o, n |-> n, f |-> 0, m |-> 1] : o \in {"fr", "rd"}, n \in N(s)}
     \cup {[o |-> "ro", n |-> n, f |-> f, m |-> 0] : n \in N(s), f \in 0..(Len(s.q) + 2) \cup {HUGE}}
GenApply(s, op) ==
    CASE op.o = "al" -> IF CanAlloc(s, op.n) THEN Alloc(s, op.n, 1, [i \in 1..op.n |-> (s.pos + Len(s.q) + i - 1) % s.size]) ELSE s
      [] op.o = "tr" -> TrimTo(s, op.n)
      [] op.o = "fr" -> IF op.n = 0 THEN s ELSE FreeN(s, op.n)
      [] OTHER -> s
View(s) == <<s.size, s.pos, Len(s.q)>>
GenInit == k = 0 /\ l = 0 /\ st \in {[size |-> z, pos |-> 0, q |-> <<>>] : z \in SIZES}
GenNext == /\ UNCHANGED <<k, l>>
           /\ \E op \in Ops(st) : LET a == GenApply(st, op) IN
                /\ st' = a
                /\ PrintT("@@" \o ToJson(<<ToString(View(st)), ToString(View(a)), op>>))
GenSpec == GenInit /\ [][GenNext]_vars
GenView == View(st)
\* a ring buffer is one way to satisfy the demands on placement
Sane == /\ Len(st.q) <= Cap(st)
        /\ Cardinality(Places(st.q)) = Len(st.q)
        /\ Places(st.q) \subseteq 0..(st.size - 1)

(***************************** checking ************************************)
Traces == ndJsonDeserialize(IOEnv.TRACE)
Report(x) == PrintT("@@" \o ToString(<<"FAIL", Traces[k].id, l + 1, x>>))
SegPlaces(o) == [i \in 1..(o.l1 + o.l2) |-> IF i <= o.l1 THEN o.s1 + i - 1 ELSE o.s2 + i - o.l1 - 1]
Ran(s) == {s[i] : i \in 1..Len(s)}
SegOk(s, o) ==      \* a handed-out region lies in the storage and does not overlap itself
    /\ o.l1 + o.l2 <= s.size
    /\ Ran(SegPlaces(o)) \subseteq 0..(s.size - 1)
    /\ Cardinality(Ran(SegPlaces(o))) = o.l1 + o.l2

Step(s, o) ==   \* -> [st, d: what is wrong, or ""]
    LET W(x, d) == [st |-> x, d |-> d]
    IN
    CASE o.o = "al" ->
            IF ~CanAlloc(s, o.n) THEN W(s, IF o.r # ENOMEM THEN "an impossible reservation returns " \o ToString(o.r) ELSE "")
            ELSE IF o.r # 0 THEN W(s, "a possible reservation is refused: " \o ToString(o.r))
            ELSE IF o.l1 + o.l2 # o.n THEN W(s, "reserved " \o ToString(o.l1 + o.l2))
            ELSE IF ~SegOk(s, o) THEN W(s, "region outside the storage")
            ELSE IF Ran(SegPlaces(o)) \cap Places(s.q) # {} THEN W(s, "region overlaps stored bytes")
            ELSE W(Alloc(s, o.n, o.v0, SegPlaces(o)), "")
      [] o.o = "tr" -> W(TrimTo(s, o.n), "")
      [] o.o = "fr" -> LET a == IF o.n = 0 THEN s ELSE FreeN(s, o.n)
                       IN  W(a, IF o.r # 0 THEN "free fails" ELSE IF o.m = 0 /\ o.iu # Len(a.q) THEN "free reports " \o ToString(o.iu) \o " left" ELSE "")
      [] o.o = "rd" \/ o.o = "ro" ->
            IF o.f > Len(s.q) THEN W(s, IF o.r # EINVAL THEN "reading beyond the end returns " \o ToString(o.r) ELSE "")
            ELSE LET x == Vals(ReadAt(s, o.f, o.n))
                 IN  W(s, IF o.r # 0 THEN "read fails" ELSE IF o.d # x THEN "reads " \o ToString(o.d) \o " not " \o ToString(x)
                          ELSE IF o.m = 0 /\ o.iu # Len(x) THEN "reports " \o ToString(o.iu) \o " bytes read" ELSE "")
      [] o.o = "rs" -> LET x == Vals(First(s.q, o.n))
                       IN  W(s, IF o.r # 0 THEN "segments fail" ELSE IF o.l1 + o.l2 # Len(x) THEN "segments of " \o ToString(o.l1 + o.l2) \o " bytes"
                                ELSE IF ~SegOk(s, o) THEN "segments outside the storage" ELSE IF o.sd # x THEN "segments show " \o ToString(o.sd) \o " not " \o ToString(x) ELSE "")
Queries(a, o) ==
    IF o.use # Len(a.q) THEN "in use: " \o ToString(o.use) \o " not " \o ToString(Len(a.q))
    ELSE IF o.av # Cap(a) - Len(a.q) THEN "available: " \o ToString(o.av)
    ELSE IF o.all # Vals(a.q) THEN "holds " \o ToString(o.all) \o " not " \o ToString(Vals(a.q)) ELSE ""

CheckInit == k \in 1..Len(Traces) /\ l = 0 /\ st = [size |-> Traces[k].size, pos |-> 0, q |-> <<>>]
CheckNext == /\ l < Len(Traces[k].ops)
             /\ k' = k
             /\ LET o == Traces[k].ops[l + 1]
                    a == Step(st, o)
                    d == IF a.d # "" THEN a.d ELSE Queries(a.st, o)
                IN  /\ st' = a.st
                    /\ l' = IF d = "" THEN l + 1 ELSE 1000000
                    /\ (d # "" => Report(o.o \o " " \o ToString(<<o.n, o.f>>) \o ": " \o d))
CheckSpec == CheckInit /\ [][CheckNext]_vars
=============================================================================
