----------------------------- MODULE ModemTrace -----------------------------
(* Executions recorded from the real code are checked against Modem.tla.    *)
(* The file contains many executions: event "begin" starts the next one.    *)
EXTENDS Modem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, S, id

Init == i = 1 /\ S = InitState([rx |-> "sdr", tx |-> "none", over |-> FALSE]) /\ id = -1

Report(e, f) == \A n \in f : PrintT(<<"BAD", id, i, e.ev, n>>)
Seen(e) == TLCSet(1, TLCGet(1) \cup {g[1] : g \in Guards(S, e)})

Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.ev = "begin"
       THEN /\ S' = InitState(e.cfg)
            /\ id' = e.id
       ELSE /\ LET f == Failed(S, e) IN IF f = {} THEN TRUE ELSE Report(e, f)
            /\ Seen(e)
            /\ S' = Effect(S, e)
            /\ id' = id

Spec == Init /\ [][Next]_<<i, S, id>>
ASSUME TLCSet(1, {})
Accepted == /\ TLCGet("stats").diameter = Len(Trace) + 1
            /\ PrintT(<<"CLAUSES", TLCGet(1)>>)
            /\ PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
