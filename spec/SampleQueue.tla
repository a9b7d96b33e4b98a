---------------------------- MODULE SampleQueue ----------------------------
(***************************************************************************)
(* Queue between the thread reading samples and the thread processing them *)
(* as an abstract data type. Every operation is atomic and is described by *)
(* the set of its outcomes [q |-> next state, r |-> result, n |-> length]; *)
(* empty set - the caller should wait.                                     *)
(*   filled  - buffers not yet taken, each is [v |-> value, n |-> length]  *)
(*   det     - buffer being processed (sequence of 0 or 1 elements)        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

QNew(bs, size, blocking) == [bs |-> bs, size |-> size, blocking |-> blocking, filled |-> <<>>, det |-> <<>>, poison |-> FALSE]
Free(q) == q.size - Len(q.filled) - Len(q.det)
Out(q, r, n) == [q |-> q, r |-> r, n |-> n]

QPut(q, v, n) ==
    LET b == [v |-> v, n |-> n] IN
    IF n = 0 \/ n > q.bs THEN {Out(q, -1, 0)}
    ELSE IF q.blocking
    THEN IF q.poison THEN {Out(q, -1, 0)}
         ELSE IF Free(q) > 0 THEN {Out([q EXCEPT !.filled = Append(@, b)], 0, 0)} ELSE {}
    ELSE IF Free(q) > 0 THEN {Out([q EXCEPT !.filled = Append(@, b)], 0, 0)}
    ELSE IF q.filled = <<>> THEN {Out(q, -1, 0)}     \* the only buffer is being processed
    ELSE {Out([q EXCEPT !.filled[Len(q.filled)] = b], 0, 0)}

\* 0 - end of the data
QTake(q) ==
    IF q.filled # <<>> THEN {Out([q EXCEPT !.filled = Tail(@), !.det = <<Head(q.filled)>>], Head(q.filled).v, Head(q.filled).n)}
    ELSE IF q.poison THEN {Out(q, 0, 0)} ELSE {}
QComplete(q) == {Out([q EXCEPT !.det = <<>>], 0, 0)}
QInterrupt(q) == {Out([q EXCEPT !.poison = TRUE], 0, 0)}

QOp(q, o) == CASE o.op = "put" -> QPut(q, o.v, o.n)
               [] o.op = "take" -> QTake(q)
               [] o.op = "comp" -> QComplete(q)
               [] o.op = "int" -> QInterrupt(q)
=============================================================================
