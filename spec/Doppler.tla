------------------------------- MODULE Doppler -------------------------------
(* Correction of the Doppler shift (property C15).                          *)
(* Sample i of the stream belongs to the second i \div rate. The shift is    *)
(* known at the beginning of each second and moves linearly to the next one. *)
(* Frequencies are integers, 0.1 Hz.                                         *)
(* p: tx, rate, off (Hz), max - length of the buffer, batch - the longest    *)
(* part of the stream which is processed with the same frequency, it can not *)
(* be longer than one call or one second.                                    *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Sec(p, i) == i \div p.rate
\* d[j + 1] - shift of the signal at the beginning of the second j
\* approaching satellite is received at the higher frequency, d is negative: the received signal is moved down,
\* the transmitted signal is moved in the opposite direction
Signed(p, x) == (IF p.tx THEN -x ELSE x) + 10 * p.off
Known(p, d, i) == Sec(p, i) + 2 <= Len(d)
Slope(p, d, i) == d[Sec(p, i) + 2] - d[Sec(p, i) + 1]
\* position inside of the second in 1/1000
Milli(p, i) == ((i - Sec(p, i) * p.rate) * 1000) \div p.rate
Ideal(p, d, i) == Signed(p, d[Sec(p, i) + 1] + (Slope(p, d, i) * Milli(p, i)) \div 1000)
\* whole Hz are used for the correction
Tolerance(p, d, i) == 18 + Abs(Slope(p, d, i) * p.batch) \div p.rate
Correct(p, d, i, f) == Known(p, d, i) /\ Abs(f - Ideal(p, d, i)) <= Tolerance(p, d, i)
\* run: <<first sample, number of samples, frequency>>
Points(p, r) == LET last == r[1] + r[2] - 1 IN
    {r[1], last} \cup {j * p.rate : j \in {k \in Sec(p, r[1])..Sec(p, last) : k * p.rate >= r[1]}} \cup {j * p.rate - 1 : j \in {k \in Sec(p, r[1])..Sec(p, last) : k * p.rate > r[1]}}
RunCorrect(p, d, r) == \A i \in Points(p, r) : Correct(p, d, i, r[3])
=============================================================================
