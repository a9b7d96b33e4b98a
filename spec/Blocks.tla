-------------------------------- MODULE Blocks --------------------------------
(* Signal processing blocks (property C14) as functions of the whole stream. *)
(* The result does not depend on the split: output number k (from 0) is      *)
(* defined by the stream x only, the number of outputs by the number of the  *)
(* inputs consumed so far.                                                   *)
(* p: kind, a - parameters, taps. The stream is integer, complex numbers are *)
(* pairs. Angles are in 1/8 of the turn.                                     *)
EXTENDS Integers, Sequences

Abs(v) == IF v < 0 THEN -v ELSE v
Min(a, b) == IF a < b THEN a ELSE b
\* cos of k/8 of the turn, x1000
Cos8(k) == LET m == k % 8 IN CASE m = 0 -> 1000 [] m \in {1, 7} -> 707 [] m \in {2, 6} -> 0 [] m \in {3, 5} -> -707 [] OTHER -> -1000
Sin8(k) == Cos8(k - 2)

IsComplexIn(p) == p.kind \in {"cfir", "mix", "fsk", "clpf"}
\* item number i (from 0) of the stream, before the first one there are zeros
X(x, i) == IF i < 0 \/ i >= Len(x) THEN 0 ELSE x[i + 1]
Re(x, i) == IF i < 0 THEN 0 ELSE x[2 * i + 1]
Im(x, i) == IF i < 0 THEN 0 ELSE x[2 * i + 2]
RECURSIVE Sum(_, _, _)
Sum(f, from, to) == IF from > to THEN 0 ELSE f[from] + Sum(f, from + 1, to)
SumOf(f, n) == Sum(f, 0, n - 1)

Count(p, n) ==
    CASE p.kind \in {"fir", "cfir", "lpf", "clpf"} -> (n + p.a[1] - 1) \div p.a[1]
      [] p.kind = "interp" -> n * p.a[1]
      [] p.kind = "gfsk" -> n * 8 * p.a[1]
      [] OTHER -> n

\* convolution with the taps at position i of the input
Fir(p, x, i) == SumOf([j \in 0..Len(p.taps) - 1 |-> p.taps[j + 1] * X(x, i - j)], Len(p.taps))
FirRe(p, x, i) == SumOf([j \in 0..Len(p.taps) - 1 |-> p.taps[j + 1] * Re(x, i - j)], Len(p.taps))
FirIm(p, x, i) == SumOf([j \in 0..Len(p.taps) - 1 |-> p.taps[j + 1] * Im(x, i - j)], Len(p.taps))
\* output k of the interpolator: zeros are inserted between samples
Interp(p, x, k) == LET up == p.a[1] n == k \div up ph == k % up
                       m == (Len(p.taps) - ph + up - 1) \div up IN
                   SumOf([j \in 0..m - 1 |-> p.taps[ph + up * j + 1] * X(x, n - j)], m)
\* dc blocker: delayed input minus the moving average applied 4 times
Conv(a, b) == [k \in 1..Len(a) + Len(b) - 1 |-> SumOf([j \in 0..Len(a) - 1 |-> IF k - j \in 1..Len(b) THEN a[j + 1] * b[k - j] ELSE 0], Len(a))]
Average4(l) == LET one == [k \in 1..l |-> 1] two == Conv(one, one) IN Conv(two, two)
Delay(l) == 2 * (l - 1)
Dc(p, x, i) == LET l == p.a[1] c == p.taps IN
    1000 * X(x, i - Delay(l)) - (1000 * SumOf([j \in 0..Len(c) - 1 |-> c[j + 1] * X(x, i - j)], Len(c))) \div (l * l * l * l)
\* phase accumulated by the frequency modulator
PhaseTo(x, i) == SumOf([j \in 0..i |-> x[j + 1]], i + 1)
\* difference of angles, -3..4
Wrap(d) == LET m == d % 8 IN IF m > 4 THEN m - 8 ELSE m
Quad(p, x, i) == IF i = 0 THEN 0 ELSE 100 * p.a[1] * Wrap(x[i + 1] - x[i])
=============================================================================
