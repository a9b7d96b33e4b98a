----------------------------- MODULE SignalTrace -----------------------------
(* Signal path (property C21): bits which were modulated are received by the  *)
(* demodulator, filters pass the signal and reject the rest, the interpolator *)
(* returns values between samples.                                            *)
EXTENDS Integers, Sequences, Replay
SBegin(e) == [ e |-> e, sym |-> <<>> ]
Near(a, b, t) == a - b \in -t..t
\* symbols are the bits, the delay is the same for the whole stream: filters, clock synchronization and silence at the beginning
MaxShift == 150
Received(S) == \E d \in -MaxShift..MaxShift :
    \A k \in 1..S.e.count : LET i == S.e.first + k + d IN i \in 1..Len(S.sym) /\ S.sym[i] = S.e.bits[S.e.first + k]
\* interpolated value at position at + 3 + mu / 1000 of the parabola. the step of the interpolator is 1/128
At(S, at, mu) == LET k == at + 3 e == S.e IN
    e.c * k * k + e.a * k + e.b + ((2 * e.c * k + e.a) * mu) \div 1000 + (((e.c * mu) \div 10) * mu) \div 100000
Slope(S, at) == LET v == 2 * S.e.c * (at + 4) + S.e.a IN IF v < 0 THEN -v ELSE v
AbsMax(S, at) == LET v == At(S, at, 0) IN IF v < 0 THEN -v ELSE v
SGuards(S, e) ==
    CASE e.ev = "created" -> { <<"C21:create", e.r = 0>> }
      [] e.ev = "done" -> { <<"C21:received", Received(S)>>,
                            <<"C21,C09:samples", e.samples = S.e.samples>>,
                            <<"C21:symbols", e.total - Len(S.e.bits) \in -MaxShift..MaxShift>> }
      [] e.ev = "tone" -> { <<"C21:pass", S.e.f > S.e.cutoff - S.e.tw \/ Near(e.rms, 1000, 40)>>,
                            <<"C21:reject", S.e.f < S.e.cutoff + S.e.tw \/ e.rms <= 15>>,
                            <<"C21:enough", e.n > 50>> }
      [] e.ev = "mmse" -> { <<"C21,C14:interpolated", Near(e.y, At(S, e.at, e.mu), 12 + Slope(S, e.at) \div 60 + AbsMax(S, e.at) \div 150)>> }
      [] e.ev = "released" -> { <<"C21,C10:leak", e.mem = 0>> }
      [] OTHER -> {}
SEffect(S, e) == IF e.ev = "sym" THEN [S EXCEPT !.sym = @ \o e.y] ELSE S
=============================================================================
