------------------------------ MODULE BlockTrace ------------------------------
(* Calls recorded from signal processing blocks.                             *)
EXTENDS Blocks, Replay
Exact == {"fir", "cfir", "interp", "dc", "quad", "fm", "sig", "mix"}
BBegin(e) == [ p |-> [kind |-> e.kind, a |-> e.a, taps |-> IF e.kind = "dc" THEN Average4(e.a[1]) ELSE e.taps, max |-> e.max], ok |-> e.ok, x |-> e.x, pos |-> 0, out |-> 0, part |-> 0, phase |-> 0, ref |-> <<>>, tol |-> e.tol, bits |-> e.bits ]
Valid(S, e) == e.op = "c" /\ (S.p.kind = "dc" \/ e.n <= S.p.max)
Near(a, b, t) == a - b \in -t..t
\* items of the part of the output: complex numbers take two values
Items(S, e) == IF S.p.kind \in {"cfir", "fm", "sig", "mix", "gfsk", "clpf"} THEN Len(e.y) \div 2 ELSE Len(e.y)
\* mixing of one sample: amplitude a[1], phase at the sample is ph
MixRe(S, i, ph) == (S.p.a[1] * (Re(S.x, i) * Cos8(ph) - Im(S.x, i) * Sin8(ph)))
MixIm(S, i, ph) == (S.p.a[1] * (Re(S.x, i) * Sin8(ph) + Im(S.x, i) * Cos8(ph)))
\* value j (from 1) of the event, k - number of the output from the beginning of the stream
Value(S, e, j, k) ==
    CASE S.p.kind = "fir" -> Near(e.y[j], Fir(S.p, S.x, k * S.p.a[1]), S.tol)
      [] S.p.kind = "cfir" -> Near(e.y[2 * j - 1], FirRe(S.p, S.x, k * S.p.a[1]), S.tol) /\ Near(e.y[2 * j], FirIm(S.p, S.x, k * S.p.a[1]), S.tol)
      [] S.p.kind = "interp" -> Near(e.y[j], Interp(S.p, S.x, k), S.tol)
      [] S.p.kind = "dc" -> Near(e.y[j], Dc(S.p, S.x, k), S.tol)
      [] S.p.kind = "quad" -> LET q == Quad(S.p, S.x, k) IN Near(e.y[j], q, S.tol) \/ (Abs(q) = 400 * S.p.a[1] /\ Near(e.y[j], -q, S.tol))
      [] S.p.kind = "fm" -> Near(e.y[2 * j - 1], Cos8(PhaseTo(S.x, k)), S.tol) /\ Near(e.y[2 * j], Sin8(PhaseTo(S.x, k)), S.tol)
      [] S.p.kind = "sig" -> LET ph == S.phase + e.freq * (S.part + j - 1) IN Near(e.y[2 * j - 1], S.p.a[1] * Cos8(ph), S.tol) /\ Near(e.y[2 * j], S.p.a[1] * Sin8(ph), S.tol)
      [] S.p.kind = "mix" -> LET ph == S.phase + e.freq * (S.part + j - 1) IN Near(e.y[2 * j - 1], MixRe(S, k, ph), S.tol) /\ Near(e.y[2 * j], MixIm(S, k, ph), S.tol)
      [] OTHER -> TRUE
\* blocks with feedback and real taps: compared with the whole stream processed at once
SameAsRef(S, e) ==
    LET m == IF S.p.kind \in {"gfsk", "clpf"} THEN 2 ELSE 1 from == m * S.out IN
    from + Len(e.y) <= Len(S.ref) /\ \A j \in 1..Len(e.y) : Near(e.y[j], S.ref[from + j], S.tol)
\* the clock recovery might postpone symbols: the number is checked at the end
Counted(S, e) == IF S.p.kind \in {"clock", "fsk"} THEN S.out - S.part + e.len <= Len(S.ref)
                 ELSE S.out - S.part + e.len = Count(S.p, S.pos + e.n)
Unit(v) == v \in 990..1010
BGuards(S, e) ==
    CASE e.ev = "created" -> { <<"C14:create", (e.r = 0) = S.ok>> }
      [] e.ev = "call" ->
            IF Valid(S, e)
            THEN { <<"C14:length", Counted(S, e)>>,
                   <<"C14:input_changed", e.same>> } \cup
                 (IF S.p.kind \in Exact
                  THEN { <<"C14:" \o S.p.kind, e.len > 0 => \A j \in 1..Items(S, e) : Value(S, e, j, S.out + j - 1)>> }
                  ELSE { <<"C14:split_" \o S.p.kind, e.len > 0 => SameAsRef(S, e)>> }) \cup
                 (IF S.p.kind = "gfsk" THEN { <<"C14,C21:amplitude", \A j \in 1..Items(S, e) : Unit((e.y[2 * j - 1] * e.y[2 * j - 1] + e.y[2 * j] * e.y[2 * j]) \div 1000)>> } ELSE {})
            ELSE { <<"C14:invalid_call", e.len = 0>> }
      [] e.ev = "released" ->
            { <<"C14,C10:leak", ~S.ok \/ (e.mem = 0 /\ e.mutex = 0)>>,
              <<"C14:lost_output", ~S.ok \/ S.p.kind \notin {"clock", "fsk"} \/ S.pos * (IF IsComplexIn(S.p) THEN 2 ELSE 1) < Len(S.x) \/ S.out = Len(S.ref)>> }
      [] OTHER -> {}
BEffect(S, e) ==
    CASE e.ev = "ref" -> [S EXCEPT !.ref = @ \o e.y]
      [] e.ev = "call" ->
            IF ~Valid(S, e) THEN S
            ELSE IF e.last THEN [S EXCEPT !.out = @ + (IF e.len = 0 THEN 0 ELSE Items(S, e)), !.part = 0, !.pos = @ + e.n, !.phase = (@ + e.freq * e.n) % 8]
            ELSE [S EXCEPT !.out = @ + Items(S, e), !.part = @ + Items(S, e)]
      [] OTHER -> S
=============================================================================
