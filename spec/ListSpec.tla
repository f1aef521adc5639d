------------------------------ MODULE ListSpec ------------------------------
(***************************************************************************)
(* The list container (rmc_list.h, rmc_list_template.h) as mathematical    *)
(* sequences: two lists A and B, at most one detached node.  A node is     *)
(* <<id, key>>.  Apply gives, for every operation, the state afterwards,   *)
(* the node or value it returns, the nodes it frees and how many it        *)
(* allocates.                                                              *)
(*                                                                         *)
(* Two ways to run this module:                                            *)
(*   GenSpec    enumerates all states up to the bounds (identified by the  *)
(*              keys) and prints every transition, from which              *)
(*              tools/models.py makes walks for harness/list.c;            *)
(*   CheckSpec  checks the recorded results of those walks.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MAXA, MAXB, KEYS

NoNode == <<0, 0>>
St0 == [A |-> <<>>, B |-> <<>>, d |-> NoNode, nid |-> 1]

Ins(s, i, x)  == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))      \* x becomes element i
Del(s, i)     == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rev(s)        == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Desc(s)       == \A i \in 1..(Len(s) - 1) : s[i][2] >= s[i + 1][2]
Asc(s)        == \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][2]
Cnt(s, P(_))  == Cardinality({i \in 1..Len(s) : P(s[i][2])})

\* where sorted insertion puts key k: before its equals when searching from the head (descending list),
\* after its equals when searching from the tail (ascending list)
PosDesc(s, k) == Cnt(s, LAMBDA x : x > k) + 1
PosAsc(s, k)  == Cnt(s, LAMBDA x : x <= k) + 1

\* the comparison functions the harness passes to searches: 0: equal; 1: equal, and stop at a greater key; 2: any key but k
Found(m, k, x) == IF m = 2 THEN x # k ELSE x = k
Stop(m, k, x)  == m = 1 /\ x > k
RECURSIVE Find(_, _, _)
Find(s, m, k) == IF s = <<>> \/ Stop(m, k, s[1][2]) THEN 0 ELSE IF Found(m, k, s[1][2]) THEN s[1][1] ELSE Find(Tail(s), m, k)
Visit(s, n) == [i \in 1..(IF n < Len(s) THEN n ELSE Len(s)) |-> s[i][1]]

R(st, r, fr, al) == [st |-> st, r |-> r, fr |-> fr, al |-> al, v |-> <<>>]

\* op: [o: name, l: list, p: position, k: key, m: mode]; r is the id returned, 0 for none
Apply(st, op) ==
    LET s == IF op.l = "A" THEN st.A ELSE st.B
        put(x) == IF op.l = "A" THEN [st EXCEPT !.A = x] ELSE [st EXCEPT !.B = x]
        new == <<st.nid, op.k>>
        add(i) == R([put(Ins(s, i, new)) EXCEPT !.nid = @ + 1], st.nid, <<>>, 1)       \* a newly allocated node
        link(i) == R([put(Ins(s, i, st.d)) EXCEPT !.d = NoNode], st.d[1], <<>>, 0)     \* the detached node
        take(i) == R([put(Del(s, i)) EXCEPT !.d = s[i]], s[i][1], <<>>, 0)
        drop(i) == R(put(Del(s, i)), s[i][1], <<s[i][1]>>, 0)
        none == R(st, 0, <<>>, 0)
        n == Len(s)
    IN  CASE op.o = "ph"   -> add(1)
          [] op.o = "pt"   -> add(n + 1)
          [] op.o = "ib"   -> add(op.p)
          [] op.o = "ia"   -> add(op.p + 1)
          [] op.o = "is"   -> add(PosDesc(s, op.k))
          [] op.o = "isr"  -> add(PosAsc(s, op.k))
          [] op.o = "phn"  -> link(1)
          [] op.o = "ptn"  -> link(n + 1)
          [] op.o = "ibn"  -> link(op.p)
          [] op.o = "ian"  -> link(op.p + 1)
          [] op.o = "isn"  -> link(PosDesc(s, st.d[2]))
          [] op.o = "isrn" -> link(PosAsc(s, st.d[2]))
          [] op.o = "un"   -> take(op.p)
          [] op.o = "oh"   -> IF n = 0 THEN none ELSE drop(1)      \* pop_head: the data
          [] op.o = "ot"   -> IF n = 0 THEN none ELSE drop(n)
          [] op.o = "ohn"  -> IF n = 0 THEN none ELSE take(1)      \* pop_head_node: the node
          [] op.o = "otn"  -> IF n = 0 THEN none ELSE take(n)
          [] op.o = "del"  -> [drop(op.p) EXCEPT !.r = -1]
          [] op.o = "emp"  -> R(put(<<>>), -1, [i \in 1..n |-> s[i][1]], 0)
          [] op.o = "fn"   -> R(st, Find(s, op.m, op.k), <<>>, 0)
          [] op.o = "fnr"  -> R(st, Find(Rev(s), op.m, op.k), <<>>, 0)
          [] op.o = "fe"   -> [R(st, -1, <<>>, 0) EXCEPT !.v = Visit(s, op.p)]     \* for_each, told to stop after p nodes
          [] op.o = "fer"  -> [R(st, -1, <<>>, 0) EXCEPT !.v = Visit(Rev(s), op.p)]
          [] op.o = "fd"   -> R([st EXCEPT !.d = NoNode], -1, <<>>, 0)             \* the application frees the detached node

Ops(st) ==
    LET L(l) == IF l = "A" THEN st.A ELSE st.B
        M(l) == IF l = "A" THEN MAXA ELSE MAXB
        O(o, l, p, k, m) == [o |-> o, l |-> l, p |-> p, k |-> k, m |-> m]
        Room(l) == Len(L(l)) < M(l)
        D == st.d # NoNode
    IN  UNION {
          (IF Room(l) THEN {O(o, l, 0, k, 0) : o \in {"ph", "pt"}, k \in KEYS}
                        \cup {O(o, l, p, k, 0) : o \in {"ib", "ia"}, p \in 1..Len(L(l)), k \in KEYS}
                        \cup (IF Desc(L(l)) THEN {O("is", l, 0, k, 0) : k \in KEYS} ELSE {})
                        \cup (IF Asc(L(l)) THEN {O("isr", l, 0, k, 0) : k \in KEYS} ELSE {}) ELSE {})
          \cup (IF Room(l) /\ D THEN {O(o, l, 0, 0, 0) : o \in {"phn", "ptn"}} \cup {O(o, l, p, 0, 0) : o \in {"ibn", "ian"}, p \in 1..Len(L(l))}
                        \cup (IF Desc(L(l)) THEN {O("isn", l, 0, 0, 0)} ELSE {})
                        \cup (IF Asc(L(l)) THEN {O("isrn", l, 0, 0, 0)} ELSE {}) ELSE {})
          \cup (IF ~D THEN {O(o, l, 0, 0, 0) : o \in {"ohn", "otn"}} \cup {O("un", l, p, 0, 0) : p \in 1..Len(L(l))} ELSE {})
          \cup {O(o, l, 0, 0, 0) : o \in {"oh", "ot", "emp"}}
          \cup {O("del", l, p, 0, 0) : p \in 1..Len(L(l))}
          \cup {O(o, l, 0, k, m) : o \in {"fn", "fnr"}, k \in KEYS, m \in 0..2}
          \cup {O(o, l, p, 0, 0) : o \in {"fe", "fer"}, p \in 1..(Len(L(l)) + 1)}
          : l \in {"A", "B"} }
       \cup (IF D THEN {O("fd", "A", 0, 0, 0)} ELSE {})

VARIABLES k, l, st
vars == <<k, l, st>>

(***************************** generation **********************************)
Keys(s) == [i \in 1..Len(s) |-> s[i][2]]
View(s) == <<Keys(s.A), Keys(s.B), s.d[2]>>
GenInit == k = 0 /\ l = 0 /\ st = St0
GenNext == /\ UNCHANGED <<k, l>>
           /\ \E op \in Ops(st) : LET a == Apply(st, op) IN
                /\ st' = a.st
                /\ PrintT("@@" \o ToJson(<<ToString(View(st)), ToString(View(a.st)), op>>))
GenSpec == GenInit /\ [][GenNext]_vars
GenView == View(st)

\* what the operations define, checked on every state: one id occurs once, counts agree, sorted insertion keeps order
Sane ==
    LET all == st.A \o st.B \o (IF st.d = NoNode THEN <<>> ELSE <<st.d>>)
    IN  /\ \A i, j \in 1..Len(all) : i # j => all[i][1] # all[j][1]
        /\ \A op \in Ops(st) : LET a == Apply(st, op)
                                  all2 == a.st.A \o a.st.B \o (IF a.st.d = NoNode THEN <<>> ELSE <<a.st.d>>)
                              IN  /\ op.o # "fd" => Len(all2) = Len(all) + a.al - Len(a.fr)
                                  /\ op.o \in {"is", "isn"} => Desc(IF op.l = "A" THEN a.st.A ELSE a.st.B)
                                  /\ op.o \in {"isr", "isrn"} => Asc(IF op.l = "A" THEN a.st.A ELSE a.st.B)

(***************************** checking ************************************)
Traces == ndJsonDeserialize(IOEnv.TRACE)
Report(x) == PrintT("@@" \o ToString(<<"FAIL", Traces[k].id, l + 1, x>>))
Pairs(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
SameBag(x, y) ==   \* in which order nodes are given back is nobody's business; y has no repetition
    Len(x) = Len(y) /\ {x[i] : i \in 1..Len(x)} = {y[i] : i \in 1..Len(y)}
Diff(a, o) ==      \* a: what Apply says; o: the record of the real operation
    IF o.r # a.r THEN "returns " \o ToString(o.r) \o " not " \o ToString(a.r)
    ELSE IF Pairs(o.A) # a.st.A \/ Pairs(o.B) # a.st.B THEN "forward order " \o ToString(<<o.A, o.B>>) \o " not " \o ToString(<<a.st.A, a.st.B>>)
    ELSE IF Pairs(o.Ar) # Rev(a.st.A) \/ Pairs(o.Br) # Rev(a.st.B) THEN "backward order " \o ToString(<<o.Ar, o.Br>>)
    ELSE IF o.an # Len(a.st.A) \/ o.bn # Len(a.st.B) THEN "sizes " \o ToString(<<o.an, o.bn>>)
    ELSE IF o.own # 1 THEN "a node's owner is wrong"
    ELSE IF o.al # -1 /\ (o.al # a.al \/ ~SameBag(o.fr, a.fr)) THEN "allocated " \o ToString(o.al) \o ", freed " \o ToString(o.fr)
    ELSE IF o.v # a.v THEN "visited " \o ToString(o.v)
    ELSE IF o.ud # 1 THEN "wrong user data" ELSE ""
CheckInit == k \in 1..Len(Traces) /\ l = 0 /\ st = St0
CheckNext == /\ l < Len(Traces[k].ops)
             /\ k' = k
             /\ LET o == Traces[k].ops[l + 1]
                    a == Apply(st, o)
                    d == Diff(a, o)
                IN  /\ st' = a.st
                    /\ l' = IF d = "" THEN l + 1 ELSE 1000000
                    /\ (d # "" => Report(o.o \o ": " \o d))
CheckSpec == CheckInit /\ [][CheckNext]_vars
=============================================================================
