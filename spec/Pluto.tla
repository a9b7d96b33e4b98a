--------------------------------- MODULE Pluto ---------------------------------
(* PlutoSDR devices of the process and the shared libiio context               *)
(* (properties C12 and C20). A device is opened by create and closed by        *)
(* destroy, both by any thread; a failure of any libiio call undoes create.    *)
EXTENDS PlutoHw, FiniteSets

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* t: <<freq, freq, rate, rate, mode, gain>> or <<>>
Given(t) == Len(t) = 6
Cfg(t) == [freq |-> <<t[1], t[2]>>, rate |-> <<t[3], t[4]>>, mode |-> t[5], gain |-> t[6]]
CfgOk(t) == ~Given(t) \/ (Supported(Cfg(t).rate) /\ Cfg(t).mode \in 0..3)
Request(e) == [only |-> e.only, rx |-> e.rx, tx |-> e.tx, timeout |-> e.timeout, max |-> e.max, fault |-> FALSE]
Valid(q) == (Given(q.rx) \/ Given(q.tx)) /\ CfgOk(q.rx) /\ CfgOk(q.tx)
DecOf(t) == IF Given(t) THEN Dec(Cfg(t).rate) ELSE 0

\* ctx - number of contexts, pend - requests being created, devs - opened, closing - being destroyed, rxb and txb - live buffers
NewState(conc) == [ conc |-> conc, ctx |-> 0, hw |-> NewHw, pend |-> <<>>, devs |-> <<>>, closing |-> {}, rxb |-> 0, txb |-> 0, last |-> <<>>, eof |-> FALSE, fl |-> FALSE ]
Wanted(S, dir) == Cardinality({ d \in DOMAIN S.devs : Given(S.devs[d].q[dir]) })

PGuards(S, e) ==
    (IF S.conc THEN {} ELSE HwGuards(S.hw, e)
         \cup { <<"C12:other_direction_disturbed", CASE Disturbs(e) = "tx" -> S.txb = 0 \/ \E d \in DOMAIN S.pend : S.pend[d].only
                                                     [] Disturbs(e) = "rx" -> S.rxb = 0
                                                     [] OTHER -> TRUE>> }) \cup
    CASE e.ev = "ctxopen" -> { <<"C12:second_context", S.ctx = 0>>, <<"C12:context_without_user", DOMAIN S.pend # {}>> }
      [] e.ev = "ctxclose" -> { <<"C12:context_closed_twice", S.ctx = 1>>,
                                <<"C12:context_closed_in_use", DOMAIN S.devs \subseteq S.closing>>,
                                <<"C12:context_closed_under_buffer", S.conc \/ (S.rxb = 0 /\ S.txb = 0)>> }
      [] e.ev \in {"rxopen", "txopen"} /\ ~S.conc ->
            LET dir == IF e.ev = "rxopen" THEN "rx" ELSE "tx" IN
            IF Cardinality(DOMAIN S.pend) # 1 THEN { <<"C12,C20:buffer_without_request", FALSE>> }
            ELSE LET q == S.pend[CHOOSE d \in DOMAIN S.pend : TRUE] IN
                 IF ~Given(q[dir]) THEN { <<"C20,C02:wrong_direction", FALSE>> }
                 ELSE Configured(S.hw, dir, Cfg(q[dir]))
                      \cup { <<"C20:fir_filter", FirOk(S.hw, DecOf(q.rx), DecOf(q.tx))>>,
                             <<"C20:timeout", S.hw.timeout = q.timeout>>,
                             \* failure to power down is not fatal
                             <<"C20:tx_oscillator_is_on", ~(dir = "rx" /\ q.only) \/ S.hw.pd.tx = 1 \/ q.fault>> }
      [] e.ev = "created" ->
            LET q == S.pend[e.id] IN
            { <<"C12,C20:create_result", IF e.r = 0 THEN Valid(q) ELSE (~Valid(q) \/ q.fault)>>,
              <<"C12:device_without_context", e.r # 0 \/ S.ctx = 1>>,
              <<"C12:buffers_of_device", S.conc \/ e.r # 0 \/ (S.rxb = Wanted(S, "rx") + (IF Given(q.rx) THEN 1 ELSE 0) /\ S.txb = Wanted(S, "tx") + (IF Given(q.tx) THEN 1 ELSE 0))>>,
              <<"C12:failure_left_buffer", S.conc \/ e.r = 0 \/ (S.rxb = Wanted(S, "rx") /\ S.txb = Wanted(S, "tx"))>>,
              <<"C12:failure_left_context", S.conc \/ e.r = 0 \/ S.ctx = (IF DOMAIN S.devs = {} THEN 0 ELSE 1)>>,
              <<"C12:channels", S.conc \/ e.chn = 2 * (S.rxb + S.txb)>> }
      [] e.ev = "destroyed" ->
            LET D == DOMAIN S.devs \ {e.id}
                n(dir) == Cardinality({ d \in D : Given(S.devs[d].q[dir]) }) IN
            { <<"C12:destroy_left_buffer", S.conc \/ (S.rxb = n("rx") /\ S.txb = n("tx"))>>,
              <<"C12:context_of_last_user", S.conc \/ S.ctx = (IF D = {} THEN 0 ELSE 1)>>,
              <<"C12:channels", S.conc \/ e.chn = 2 * (S.rxb + S.txb)>> }
      [] e.ev = "tx" ->
            LET d == S.devs[e.id] IN
            { <<"C12,C20:tx_result", (e.r = 0) = (Given(d.q.tx) /\ ~d.fault) \/ (S.conc /\ d.fault)>>,
              <<"C20,C09:tx_samples", S.conc \/ e.r # 0 \/ (Len(e.s) = 2 * e.n /\ \A i \in 1..Len(e.s) :
                     LET v == (((2 * e.from + i - 1) * 7919) % 72001) - 36000 IN
                     e.s[i] = IF v > 32767 THEN 32767 ELSE IF v < -32768 THEN -32768 ELSE v)>> }
      [] e.ev = "rx" ->
            LET d == S.devs[e.id] IN
            IF e.r = 0 THEN { <<"C12,C20:rx_result", Given(d.q.rx) /\ (S.conc \/ (~d.fault /\ ~d.stopped))>>,
                              <<"C20,C04:rx_length", e.n <= d.q.max /\ (S.conc \/ 2 * e.n = Len(S.last))>>,
                              <<"C20,C04:rx_samples", S.conc \/ (Len(e.s) = Len(S.last) /\ \A i \in 1..Len(e.s) : e.s[i] = 64 * S.last[i])>> }
            ELSE { <<"C12,C20:rx_result", ~Given(d.q.rx) \/ d.fault \/ d.stopped \/ S.eof>>,
                   <<"C20:rx_failure_has_data", e.null /\ e.n = 0>> }
      [] e.ev = "released" -> { <<"C12,C10:leak", e.mem = 0 /\ e.iio = 0 /\ e.mutex = 0>>, <<"C12:context_left", S.ctx = 0>> }
      [] OTHER -> {}

PEffect(S, e) ==
    CASE e.ev = "create" -> [S EXCEPT !.pend = Put(@, e.id, Request(e))]
      [] e.ev = "created" -> [S EXCEPT !.pend = Del(@, e.id), !.devs = IF e.r = 0 THEN Put(@, e.id, [q |-> S.pend[e.id], stopped |-> FALSE, fault |-> FALSE]) ELSE @]
      [] e.ev = "destroy" -> [S EXCEPT !.closing = @ \cup {e.id}]
      [] e.ev = "destroyed" -> [S EXCEPT !.closing = @ \ {e.id}, !.devs = Del(@, e.id)]
      [] e.ev = "fault" -> [S EXCEPT !.pend = [d \in DOMAIN @ |-> [@[d] EXCEPT !.fault = TRUE]], !.devs = [d \in DOMAIN @ |-> [@[d] EXCEPT !.fault = TRUE]]]
      [] e.ev = "ctxopen" -> [S EXCEPT !.ctx = @ + 1, !.hw = NewHw]
      [] e.ev = "ctxclose" -> [S EXCEPT !.ctx = @ - 1]
      [] e.ev = "rxopen" -> [S EXCEPT !.rxb = @ + 1, !.eof = FALSE]
      [] e.ev = "txopen" -> [S EXCEPT !.txb = @ + 1]
      [] e.ev = "rxclose" -> [S EXCEPT !.rxb = @ - 1]
      [] e.ev = "txclose" -> [S EXCEPT !.txb = @ - 1]
      [] e.ev = "refill" -> [S EXCEPT !.last = e.s]
      [] e.ev = "sdreof" -> [S EXCEPT !.eof = TRUE]
      [] e.ev = "stop" -> [S EXCEPT !.devs[e.id].stopped = TRUE]
      [] e.ev \in {"rxcall", "txcall"} -> [S EXCEPT !.devs[e.id].fault = FALSE]
      [] OTHER -> [S EXCEPT !.hw = HwEffect(@, e)]
=============================================================================
