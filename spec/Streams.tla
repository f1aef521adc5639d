------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* The outgoing byte stream of one TCP connection, at the level of whole   *)
(* commands.  A stream is [q: sequence of commands accepted and not yet    *)
(* completely written, off: bytes of the first of them already written].   *)
(*                                                                         *)
(* Commands are the records that travel on the wire:                       *)
(*   [t |-> 1, pid, len, h, node, ip, port]   retransmitted packet         *)
(*   [t |-> 2, lo, hi]                        acknowledged interval        *)
(*   [t |-> 3, len, h]                        control message              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS HDR,      \* bytes of a packet header on the wire
          ACKSZ,    \* bytes of an acknowledgement command
          CTLHDR,   \* bytes of a control message command before its payload
          CAP       \* bytes a connection's outgoing queue can hold

CmdSize(c) == CASE c.t = 1 -> 1 + HDR + c.len
                [] c.t = 2 -> ACKSZ
                [] OTHER   -> CTLHDR + c.len

EmptyOut == [q |-> <<>>, off |-> 0]

RECURSIVE SumSizes(_)
SumSizes(q) == IF q = <<>> THEN 0 ELSE CmdSize(Head(q)) + SumSizes(Tail(q))

Pending(o) == SumSizes(o.q) - o.off       \* bytes accepted and not yet written
Room(o)    == CAP - Pending(o)
PutCmd(o, c) == [o EXCEPT !.q = Append(@, c)]

\* Writing n bytes (0 <= n <= Pending(o)): the new stream and the commands whose last byte has now been written.
RECURSIVE Wrote(_, _)
Wrote(o, n) ==
    IF o.q = <<>> \/ o.off + n < CmdSize(Head(o.q))
    THEN [o |-> [o EXCEPT !.off = @ + n], done |-> <<>>]
    ELSE LET rest == Wrote([q |-> Tail(o.q), off |-> 0], o.off + n - CmdSize(Head(o.q)))
         IN  [o |-> rest.o, done |-> <<Head(o.q)>> \o rest.done]
=============================================================================
