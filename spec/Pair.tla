-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Two executions take the same steps: of the same scenario with the log   *)
(* at changing levels and without it (C31), and of the same scenario with  *)
(* other contexts in the process and without them (C32).                   *)
(*                                                                         *)
(* These are properties of pairs of executions, so the state is a pair:    *)
(* the two are run in lock step, with a stuttering step of the second      *)
(* wherever the first one only does what must not be felt (sets a level,   *)
(* writes a message, makes a call on a context of the other world), and    *)
(* every other record of what a call did and returned must be the same.    *)
(* A record is given as its text, without what is not compared.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Pairs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, j
vars == <<k, i, j>>

A(x) == Pairs[x].a
B(x) == Pairs[x].b
Silent(r) == r = ""          \* must not be felt
Differ(x, m, n) == PrintT("@@" \o ToString(<<Pairs[x].id, m, A(x)[m], IF n <= Len(B(x)) THEN B(x)[n] ELSE "nothing">>))

Init == k \in 1..Len(Pairs) /\ i = 1 /\ j = 1
Next ==
    /\ i <= Len(A(k))
    /\ k' = k
    /\ i' = i + 1
    /\ IF Silent(A(k)[i]) THEN j' = j
       ELSE /\ j' = j + 1
            /\ IF j <= Len(B(k)) /\ A(k)[i] = B(k)[j] THEN TRUE ELSE Differ(k, i, j)
Spec == Init /\ [][Next]_vars
\* the second execution does not go on either
Done == i > Len(A(k)) => j = Len(B(k)) + 1 \/ (PrintT("@@" \o ToString(<<Pairs[k].id, i, "nothing", IF j <= Len(B(k)) THEN B(k)[j] ELSE "nothing">>)))
=============================================================================
