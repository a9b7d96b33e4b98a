------------------------------ MODULE SdrClient ------------------------------
(* Protocol between the modem (client) and sdr-server (property C18).        *)
(*   request:  version 0, type 0, center, sampling rate, band (4 bytes big   *)
(*             endian each), destination 1 (socket)                          *)
(*   answer:   version 0, type 2, status (0 is success), 4 bytes of details  *)
(*   stream:   samples, two 4-byte floats each                               *)
(*   shutdown: version 0, type 1                                             *)
EXTENDS Integers, Sequences

\* big endian numbers of 4 bytes, modulo 2^32
Add4(a, b) == LET c4 == a[4] + b[4]
                  c3 == a[3] + b[3] + (c4 \div 256)
                  c2 == a[2] + b[2] + (c3 \div 256)
                  c1 == a[1] + b[1] + (c2 \div 256) IN << c1 % 256, c2 % 256, c3 % 256, c4 % 256 >>
Request(band, offset, rate) == << 0, 0 >> \o Add4(band, offset) \o rate \o band \o << 1 >>
Positive(a) == Len(a) = 7 /\ a[1] = 0 /\ a[2] = 2 /\ a[3] = 0
ShutdownMessages(a) == \A k \in 1..Len(a) : a[k] = (k + 1) % 2

Sample(k) == << (k % 97) + 1, -(k % 89) - 1 >>
\* p: band, offset, rate - bytes; max - samples in the buffer of the client; timeout - ms;
\*    listening - is it possible to connect; prompt - the answer is sent without long pauses
NewClient(p) == [ p |-> p, connected |-> FALSE, answer |-> <<>>, sending |-> 0, sent |-> 0, fin |-> FALSE, rst |-> FALSE,
                  created |-> FALSE, pos |-> 0, stop |-> FALSE, got |-> <<>>, fault |-> FALSE, destroying |-> FALSE, ended |-> FALSE, stopped |-> FALSE, left |-> FALSE ]
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
