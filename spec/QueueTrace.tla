----------------------------- MODULE QueueTrace -----------------------------
(* Histories of calls and returns recorded from queue.c are linearizable    *)
(* with respect to SampleQueue. TLC looks for the linearization points.     *)
EXTENDS SampleQueue, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in 1..Len(Trace) : Trace[k].ev = "begin"}

VARIABLES i, id, q, pend
vars == <<i, id, q, pend>>

Init == \E k \in Starts : /\ i = k + 1 /\ id = Trace[k].id
                          /\ q = QNew(Trace[k].bs, Trace[k].size, Trace[k].blocking)
                          /\ pend = <<>>

E == Trace[i]
Progress == TLCSet(1, [TLCGet(1) EXCEPT ![id] = IF @ < i' THEN i' ELSE @])
Step == i' = i + 1 /\ id' = id /\ Progress

Created == /\ E.ev = "created" /\ E.r = (IF q.bs = 0 \/ q.size = 0 THEN -1 ELSE 0)
           /\ Step /\ UNCHANGED <<q, pend>>
Call == /\ E.ev = "call" /\ Step /\ UNCHANGED q
        /\ (E.op = "comp" => E.v = 1)       \* nobody touched the buffer while it was being processed
        /\ pend' = (E.th :> [op |-> E.op, v |-> E.v, n |-> E.n, lin |-> FALSE, r |-> 0, rn |-> 0]) @@ pend
\* the operation takes effect somewhere between the call and the return. it is enough to do it just before a return
Linearize == /\ E.ev = "ret"
             /\ \E t \in DOMAIN pend : /\ ~pend[t].lin
                                       /\ \E o \in QOp(q, pend[t]) : /\ q' = o.q
                                                                     /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].r = o.r, ![t].rn = o.n]
             /\ UNCHANGED <<i, id>>
Ret == /\ E.ev = "ret" /\ E.th \in DOMAIN pend /\ pend[E.th].lin /\ pend[E.th].r = E.r /\ pend[E.th].rn = E.n
       /\ pend' = [t \in DOMAIN pend \ {E.th} |-> pend[t]]
       /\ Step /\ UNCHANGED q
Released == /\ E.ev = "released" /\ E.mem = 0 /\ E.mutex = 0 /\ DOMAIN pend = {}
            /\ Step /\ UNCHANGED <<q, pend>>

Next == /\ i <= Len(Trace)
        /\ Created \/ Call \/ Linearize \/ Ret \/ Released
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(1, [k \in {Trace[j].id : j \in Starts} |-> 0])
\* a trace is accepted when the event after it was reached
EndOf(k) == LET S == {j \in k + 1..Len(Trace) : Trace[j].ev = "begin"} IN IF S = {} THEN Len(Trace) + 1 ELSE CHOOSE j \in S : \A x \in S : j <= x
Report == LET P == TLCGet(1) IN
    /\ \A k \in Starts : P[Trace[k].id] = EndOf(k) \/ PrintT(<<"STUCK", Trace[k].id, P[Trace[k].id] - k>>)
    /\ PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
