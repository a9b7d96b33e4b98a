-------------------------------- MODULE Replay --------------------------------
(* Executions recorded from the real code are checked against a             *)
(* deterministic transition system:                                         *)
(*   Begin(e)      - state at the beginning of the execution                 *)
(*   Guards(S, e)  - set of <<name, bool>>, what should be true for event e  *)
(*   Effect(S, e)  - the next state                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Begin(_), Guards(_, _), Effect(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, tS, tid

Common(e) == CASE e.ev = "anomaly" -> { <<"ALL:anomaly_" \o e.kind, FALSE>> }
               [] OTHER -> {}
All(e) == Common(e) \cup Guards(tS, e)
Init == ti = 1 /\ tS = <<>> /\ tid = -1
Next ==
    /\ ti <= Len(Trace)
    /\ ti' = ti + 1
    /\ LET e == Trace[ti] IN
       IF e.ev = "begin"
       THEN tS' = Begin(e) /\ tid' = e.id
       ELSE /\ \A g \in All(e) : IF g[2] THEN TRUE ELSE PrintT(<<"BAD", tid, ti, e.ev, g[1]>>)
            /\ TLCSet(1, TLCGet(1) \cup {g[1] : g \in All(e)})
            /\ tS' = Effect(tS, e)
            /\ tid' = tid
Spec == Init /\ [][Next]_<<ti, tS, tid>>
ASSUME TLCSet(1, {})
Accepted == /\ TLCGet("stats").diameter = Len(Trace) + 1
            /\ PrintT(<<"CLAUSES", TLCGet(1)>>)
            /\ PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
