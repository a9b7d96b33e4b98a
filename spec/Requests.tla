------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Decision table of the first message: which answer should the server     *)
(* give when all resources are available.                                  *)
(*                                                                         *)
(*   "invalid"  - the request can never be served: INVALID_REQUEST         *)
(*   "internal" - well formed, but a processing block or a device can't be *)
(*                created: INTERNAL_ERROR                                  *)
(*   "ok"       - SUCCESS                                                  *)
(*   "ping"     - SUCCESS and the connection is closed                     *)
(*                                                                         *)
(* Integers of TLC are 32 bit, so 64 bit numbers are sequences of 4 digits *)
(* in base 10^6, least significant first. (SUM of two digits and product   *)
(* of a digit and a number less than 2000 fit in 31 bit)                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 1000000
Zero == <<0, 0, 0, 0>>
N(x) == <<x % B, x \div B, 0, 0>>
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i - 1)
Lt(a, b) == LtFrom(a, b, 4)
Le(a, b) == ~Lt(b, a)
Add(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + (s1 \div B)
        s3 == a[3] + b[3] + (s2 \div B)
        s4 == a[4] + b[4] + (s3 \div B) IN
    <<s1 % B, s2 % B, s3 % B, s4>>
Mul(a, k) ==  \* k < 2000
    LET s1 == a[1] * k
        s2 == a[2] * k + (s1 \div B)
        s3 == a[3] * k + (s2 \div B)
        s4 == a[4] * k + (s3 \div B) IN
    <<s1 % B, s2 % B, s3 % B, s4>>
Sub(a, b) ==  \* b <= a
    LET s1 == a[1] - b[1]
        s2 == a[2] - b[2] + (s1 \div B)
        s3 == a[3] - b[3] + (s2 \div B)
        s4 == a[4] - b[4] + (s3 \div B) IN
    <<s1 % B, s2 % B, s3 % B, s4>>
Even(a) == IF a[1] % 2 = 0 THEN a ELSE <<a[1] - 1, a[2], a[3], a[4]>>

MaxU32 == <<967295, 4294, 0, 0>>
MinPluto == <<520834, 0, 0, 0>>

GMSK == 1

DopplerInvalid(r) == r.doppler.present /\ r.doppler.lines # 3
DopplerBroken(r) == r.doppler.present /\ ~r.doppler.parsed

(***************************************************************************)
(* Receive                                                                 *)
(***************************************************************************)
\* center frequency with the offset is in 0..2^32-1
SumFits(cf, off) == IF off.neg THEN Le(off.abs, cf) /\ Le(Sub(cf, off.abs), MaxU32)
                    ELSE Le(Add(cf, off.abs), MaxU32)

RxInvalid(cfg, r) ==
    \/ ~r.wf
    \/ r.type # GMSK
    \/ r.cf = Zero \/ r.sf = Zero \/ r.baud = Zero
    \/ DopplerInvalid(r)
    \/ r.dec = Zero \/ Lt(N(255), r.dec)
    \/ r.dest \notin {0, 1, 2}
    \/ (cfg.rx = "file" /\ ~r.file.present)
    \/ (cfg.rx = "sdr" /\ (Lt(MaxU32, r.cf) \/ Lt(MaxU32, r.sf) \/ ~SumFits(r.cf, r.off)))
    \/ ~r.fsk
    \/ r.tw = Zero

\* 2 * (deviation + baud / 2)
Carson2(r) == Add(Mul(r.dev.abs, 2), r.baud)
RxInternal(cfg, r) ==
    \/ DopplerBroken(r)
    \* input filter: cutoff frequency and its transition width should be positive, cutoff is not more than sampling rate / 2
    \/ Lt(Carson2(r), N(20)) \/ Lt(r.sf, Even(Carson2(r)))
    \* matched filter
    \/ Lt(r.baud, N(2)) \/ Lt(r.sf, Even(r.baud))
    \* number of taps is 53 * sf / (22 * tw) rounded to the odd number and not less than decimation
    \/ Lt(Mul(r.sf, 53), Mul(Mul(r.tw, 22), r.dec[1] - (r.dec[1] % 2)))
    \* at least one sample per symbol
    \/ Lt(r.sf, Mul(r.baud, r.dec[1]))
    \/ (cfg.rx = "pluto" /\ Lt(r.sf, MinPluto))
    \/ (cfg.rx = "file" /\ ~r.file.usable)

RxClass(cfg, r) == IF RxInvalid(cfg, r) THEN "invalid" ELSE IF RxInternal(cfg, r) THEN "internal" ELSE "ok"

(***************************************************************************)
(* Transmit                                                                *)
(***************************************************************************)
TxInvalid(cfg, r) ==
    \/ ~r.wf
    \/ r.type # GMSK
    \/ cfg.tx = "none"
    \/ r.cf = Zero \/ r.sf = Zero \/ r.baud = Zero
    \/ Lt(r.sf, r.baud) \/ Le(Mul(r.baud, 256), r.sf)   \* samples per symbol is 1..255
    \/ DopplerInvalid(r)
    \/ (cfg.tx = "file" /\ ~r.file.present)
    \/ ~r.fsk
TxInternal(cfg, r) ==
    \/ DopplerBroken(r)
    \/ (cfg.tx = "pluto" /\ Lt(r.sf, MinPluto))
    \/ (cfg.tx = "file" /\ ~r.file.usable)
TxClass(cfg, r) == IF TxInvalid(cfg, r) THEN "invalid" ELSE IF TxInternal(cfg, r) THEN "internal" ELSE "ok"

RequestClass(cfg, kind, r) == IF kind = "rx" THEN RxClass(cfg, r) ELSE TxClass(cfg, r)
=============================================================================
