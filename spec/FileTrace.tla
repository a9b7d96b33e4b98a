------------------------------ MODULE FileTrace ------------------------------
(* Calls recorded from file_source.c.                                        *)
EXTENDS FileDevice, Replay
\* coordinates are multiplied by 16
Close(a, b) == a - 16 * b \in -4..4
CloseTo(s, i, v) == Close(s[2 * i - 1], v[1]) /\ Close(s[2 * i], v[2])
FBegin(e) == NewDevice([rx |-> e.rx, tx |-> e.tx, have |-> e.have, max |-> e.max, q |-> e.q, openable |-> e.openable, faulty |-> e.faulty, broken |-> e.broken])
FGuards(s, e) ==
    CASE e.ev = "created" -> { <<"C17:create", (e.r = 0) = s.p.openable>> }
      [] e.ev = "rx" ->
            IF e.r = 0
            THEN { <<"C17:rx_wrong_direction", s.p.rx>>,
                   <<"C17:rx_after_end", s.pos < s.p.have>>,
                   <<"C17:rx_length", (e.n = NextRx(s) \/ (s.readerr /\ e.n \in 1..NextRx(s))) /\ Len(e.s) = 2 * e.n>>,
                   <<"C17:rx_samples", Len(e.s) = 2 * e.n /\ \A i \in 1..e.n : CloseTo(e.s, i, Turn(Sample(s.pos + i - 1), s.p.q * (s.turned + i - 1)))>> }
            ELSE { <<"C17:rx_failure_has_data", e.null /\ e.n = 0>>,
                   <<"C17:rx_failed_before_end", ~s.p.rx \/ s.pos = s.p.have \/ s.stopped \/ s.failed \/ s.readerr>>,
                   \* samples which were read before the error are delivered
                   <<"C17:rx_samples_before_error_lost", s.pos >= s.must>>,
                   <<"C17:rx_did_not_wait_for_stop", ~s.p.rx \/ s.stopped \/ s.failed \/ s.readerr \/ s.p.broken>> }
      [] e.ev = "tx" -> { <<"C17:tx_result", (e.r = 0) = (TxOk(s, e.n) /\ ~s.failed)>>, <<"C17:tx_input_changed", e.same>> }
      [] e.ev = "txfile" ->
            { <<"C17:tx_file", e.exists>>,
              <<"C17:tx_length", s.p.faulty \/ e.bytes = 8 * s.written>>,
              <<"C17:tx_samples", s.p.faulty \/ (s.pos > 0) \/ \A i \in 1..(Len(e.s) \div 2) : CloseTo(e.s, i, Turn(Sample(i - 1), s.p.q * (i - 1)))>> }
      [] e.ev = "released" -> { <<"C17,C10:leak", e.mem = 0 /\ e.files = 0 /\ e.mutex = 0>> }
      [] OTHER -> {}
FEffect(s, e) ==
    CASE e.ev = "rx" -> IF e.r = 0 THEN [s EXCEPT !.pos = @ + e.n, !.turned = @ + e.n] ELSE [s EXCEPT !.failed = FALSE]
      [] e.ev = "stop" -> [s EXCEPT !.stopped = TRUE]
      [] e.ev = "fault" -> [s EXCEPT !.failed = (e.what # "fread")]
      [] e.ev = "partial" -> [s EXCEPT !.readerr = TRUE, !.must = e.bytes \div 8]
      [] e.ev = "tx" -> IF e.r = 0 THEN [s EXCEPT !.written = @ + e.n, !.turned = @ + e.n] ELSE [s EXCEPT !.failed = FALSE]
      [] OTHER -> s
=============================================================================
