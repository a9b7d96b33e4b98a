----------------------------- MODULE DopplerTrace -----------------------------
(* Calls recorded from doppler.c.                                            *)
EXTENDS Doppler, Replay
DBegin(e) == [ p |-> [tx |-> e.tx, rate |-> e.rate, off |-> e.off, max |-> e.max, batch |-> e.batch], bad |-> e.bad, gold |-> e.gold, d |-> <<>>, pos |-> 0 ]
Valid(S, e) == e.op = "p" /\ e.n > 0 /\ e.n <= S.p.max
DGuards(S, e) ==
    CASE e.ev = "created" -> { <<"C15:create", (e.r = 0) = ~S.bad>> }
      [] e.ev = "ref" -> { <<"C15:orbit", \A k \in 1..Len(S.gold) : k <= Len(e.d) => Abs(S.gold[k] - e.d[k]) <= 6>> }
      [] e.ev = "call" ->
            IF Valid(S, e)
            THEN { <<"C15:length", e.len = e.n /\ ~e.null>>,
                   <<"C15,C14:samples", e.unit = e.n>>,
                   <<"C15,C14:input_changed", e.same>>,
                   <<"C15:schedule", e.nruns <= 200 /\ \A k \in 1..Len(e.runs) : RunCorrect(S.p, S.d, e.runs[k])>> }
            ELSE { <<"C15,C14:invalid_call", e.null /\ e.len = 0>> }
      [] e.ev = "released" -> { <<"C15,C10:leak", e.mem = 0 /\ e.mutex = 0>> }
      [] OTHER -> {}
DEffect(S, e) ==
    CASE e.ev = "ref" -> [S EXCEPT !.d = e.d]
      [] e.ev = "call" -> IF Valid(S, e) THEN [S EXCEPT !.pos = @ + e.n] ELSE S
      [] OTHER -> S
=============================================================================
