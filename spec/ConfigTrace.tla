------------------------------ MODULE ConfigTrace ------------------------------
(* Results of server_config_create                                            *)
EXTENDS Config, Replay
CBegin(e) == [c |-> e.c, folder |-> e.folder, readable |-> e.readable, fault |-> FALSE]
Match(s, e) == LET c == s.c IN
    { <<"C13:value_" \o n, Valid(n, c[n]) /\ Relevant(c, n) => e[n] = IntValue(n, c[n])>> : n \in DOMAIN Ints } \cup
    { <<"C13:value_" \o n, Valid(n, c[n]) /\ Relevant(c, n) => e[n] = FloatValue(c[n])>> : n \in Floats } \cup
    { <<"C13:value_" \o n, Valid(n, c[n]) /\ Relevant(c, n) => e[n] = StringValue(n, c[n], s.folder)>> : n \in Strings } \cup
    { <<"C13:value_rx_sdr_type", e.rx_sdr_type = RxType(c)>>, <<"C13:value_tx_sdr_type", e.tx_sdr_type = TxType(c)>>,
      <<"C13:library", e.lib = (IF Pluto(c) THEN 1 ELSE 0) /\ e.iio = Pluto(c)>> }
CGuards(s, e) ==
    CASE e.ev = "config" ->
            (IF e.r = 0
             THEN { <<"C13:accepted_unreadable", s.readable>>, <<"C13:accepted_without_library", ~s.fault>>,
                    <<"C13:accepted_invalid", s.readable => ~MustRefuse(s.c)>> } \cup (IF s.readable /\ ~MustRefuse(s.c) THEN Match(s, e) ELSE {})
             ELSE { <<"C13:refused_valid", ~s.readable \/ s.fault \/ MayRefuse(s.c)>>, <<"C13:library_left", e.lib = 0>> })
      [] e.ev = "released" -> { <<"C13,C10:leak", e.mem = 0 /\ e.files = 0 /\ e.iio = 0 /\ e.cfg = 0>> }
      [] OTHER -> {}
CEffect(s, e) == IF e.ev = "fault" THEN [s EXCEPT !.fault = TRUE] ELSE s
=============================================================================
