------------------------------ MODULE FileDevice ------------------------------
(* Radio emulated by files (property C17).                                  *)
(* RX: samples of the file one after another, then wait for the stop.       *)
(* TX: samples are appended to the file.                                    *)
(* Sample number k (from 0) in the stream is turned by k * offset / rate.   *)
EXTENDS Integers, Sequences

\* content used by the driver
Sample(k) == << (k % 97) + 1, -(k % 89) - 1 >>
\* q quarters of the turn
Turn(v, q) == CASE q % 4 = 0 -> v [] q % 4 = 1 -> << -v[2], v[1] >> [] q % 4 = 2 -> << -v[1], -v[2] >> [] OTHER -> << v[2], -v[1] >>
\* p - parameters: rx, tx - is the direction configured, have - complete samples of the rx file, max - length of the buffer,
\* q - quarters of the turn for each sample
NewDevice(p) == [ p |-> p, pos |-> 0, waiting |-> FALSE, stopped |-> FALSE, written |-> 0, turned |-> 0, failed |-> FALSE,
                   readerr |-> FALSE, must |-> 0 ]

\* number of samples returned by the next call of rx
NextRx(s) == IF s.p.have - s.pos < s.p.max THEN s.p.have - s.pos ELSE s.p.max
RxOk(s) == s.p.rx /\ s.pos < s.p.have
TxOk(s, n) == s.p.tx /\ n <= s.p.max
Expected(s, k, first) == Turn(Sample(k), s.p.q * (first + k))
=============================================================================
