-------------------------------- MODULE PlutoHw --------------------------------
(* Registers of PlutoSDR (ad9361) as they are seen through libiio, and what    *)
(* should be there before samples are exchanged (property C20).                *)
(* Frequencies and rates are pairs <<millions, the rest>>: TLC has 32 bits.    *)
EXTENDS Integers, Sequences

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NoFilter == <<2, 83334>>
Filter2  == <<1, 41667>>
Filter4  == <<0, 520834>>
\* decimation (interpolation) of the FIR filter for the rate
Dec(rate) == IF Lt(rate, Filter2) THEN 4 ELSE IF Lt(rate, NoFilter) THEN 2 ELSE 0
Supported(rate) == ~Lt(rate, Filter4)
\* coefficients recommended by the vendor: sum and sum multiplied by the number
Sums(dec) == IF dec = 4 THEN <<65542, 4227459>> ELSE <<65533, 4194112>>

NewHw == [ lo |-> [rx |-> <<-1, 0>>, tx |-> <<-1, 0>>], pd |-> [rx |-> -1, tx |-> -1], bw |-> [rx |-> <<-1, 0>>, tx |-> <<-1, 0>>],
           rate |-> [rx |-> <<-1, 0>>, tx |-> <<-1, 0>>], mode |-> [rx |-> "", tx |-> ""], gain |-> [rx |-> -1, tx |-> -1],
           dds |-> {}, fir |-> <<>>, en |-> "unknown", timeout |-> -1 ]

Phy(e) == e.d = "ad9361-phy"
Dir(out) == IF out THEN "tx" ELSE "rx"
Lo(ch) == CASE ch = "altvoltage0" -> "rx" [] ch = "altvoltage1" -> "tx" [] OTHER -> "none"
Tones == {"TX1_I_F1", "TX1_I_F2", "TX1_Q_F1", "TX1_Q_F2"}

HwEffect(h, e) ==
    CASE e.ev = "iioll" ->
            LET v == <<e.k, e.u>> IN
            CASE Phy(e) /\ Lo(e.ch) # "none" /\ e.a = "frequency" -> [h EXCEPT !.lo[Lo(e.ch)] = v]
              [] Phy(e) /\ Lo(e.ch) # "none" /\ e.a = "powerdown" -> [h EXCEPT !.pd[Lo(e.ch)] = e.u]
              [] Phy(e) /\ e.ch = "voltage0" /\ e.a = "rf_bandwidth" -> [h EXCEPT !.bw[Dir(e.out)] = v]
              [] Phy(e) /\ e.ch = "voltage0" /\ e.a = "sampling_frequency" -> [h EXCEPT !.rate[Dir(e.out)] = v]
              [] e.ch \in Tones /\ e.a = "raw" -> IF v = <<0, 0>> THEN [h EXCEPT !.dds = @ \cup {e.ch}] ELSE [h EXCEPT !.dds = @ \ {e.ch}]
              [] OTHER -> h
      [] e.ev = "iiostr" -> IF Phy(e) /\ e.ch = "voltage0" /\ e.a = "gain_control_mode" THEN [h EXCEPT !.mode[Dir(e.out)] = e.v] ELSE h
      [] e.ev = "iiod" -> IF Phy(e) /\ e.ch = "voltage0" /\ e.a = "hardwaregain" THEN [h EXCEPT !.gain[Dir(e.out)] = e.v] ELSE h
      [] e.ev = "iiobool" ->
            IF e.ch \in Tones /\ e.a = "raw" THEN IF e.v THEN [h EXCEPT !.dds = @ \ {e.ch}] ELSE [h EXCEPT !.dds = @ \cup {e.ch}]
            ELSE IF e.ch = "out" /\ e.a = "voltage_filter_fir_en" THEN [h EXCEPT !.en = IF e.v THEN "on" ELSE "off"]
            ELSE h
      [] e.ev = "iiodevbool" -> IF Phy(e) /\ e.a = "in_out_voltage_filter_fir_en" THEN [h EXCEPT !.en = IF e.v THEN "on" ELSE "off"] ELSE h
      [] e.ev = "iioraw" -> IF Phy(e) /\ e.a = "filter_fir_config" THEN [h EXCEPT !.fir = <<e>>] ELSE h
      [] e.ev = "iiotimeout" -> [h EXCEPT !.timeout = e.v]
      [] OTHER -> h

\* the device refuses such commands
HwGuards(h, e) ==
    CASE e.ev = "iioll" /\ e.a = "sampling_frequency" ->
            { <<"C20:rate_below_minimum", Supported(<<e.k, e.u>>)>>,
              <<"C20:rate_needs_fir_filter", ~Lt(<<e.k, e.u>>, NoFilter) \/ h.en = "on">> }
      [] e.ev = "iiodevbool" /\ e.a = "in_out_voltage_filter_fir_en" ->
            IF e.v THEN { <<"C20:fir_enabled_before_config", h.fir # <<>> >> }
            ELSE { <<"C20:fir_disabled_at_low_rate", ~Lt(h.rate.rx, NoFilter) /\ ~Lt(h.rate.tx, NoFilter)>> }
      [] OTHER -> {}

\* direction which is disturbed by the command. The sampling rate and the filter are common for both directions of the chip
Disturbs(e) ==
    CASE e.ev = "iioll" /\ Phy(e) /\ Lo(e.ch) # "none" -> IF e.a = "powerdown" /\ e.u = 0 THEN "none" ELSE Lo(e.ch)
      [] e.ev = "iioll" /\ Phy(e) /\ e.ch = "voltage0" /\ e.a = "rf_bandwidth" -> Dir(e.out)
      [] e.ev \in {"iiostr", "iiod"} /\ Phy(e) /\ e.ch = "voltage0" -> Dir(e.out)
      [] OTHER -> "none"

\* cfg: freq, rate, mode, gain; dr, dt - decimation of rx and tx in the request (0 - no filter is needed or the direction is not used)
FirOk(h, dr, dt) ==
    IF dr = 0 /\ dt = 0 THEN h.en = "off"
    ELSE LET r == IF dr = 0 THEN dt ELSE dr
             t == IF dt = 0 THEN dr ELSE dt IN
         /\ h.en = "on"
         /\ h.fir # <<>>
         /\ h.fir[1].dec = r /\ h.fir[1].int = t /\ h.fir[1].taps = 128
         /\ h.fir[1].rx = Sums(r) /\ h.fir[1].tx = Sums(t)
ModeName == <<"manual", "fast_attack", "slow_attack", "hybrid">>
Configured(h, dir, cfg) ==
    { <<"C20:" \o dir \o "_frequency", h.lo[dir] = cfg.freq>>,
      <<"C20:" \o dir \o "_bandwidth", h.bw[dir] = cfg.rate>>,
      <<"C20:" \o dir \o "_sampling_rate", h.rate[dir] = cfg.rate>>,
      <<"C20:" \o dir \o "_gain", cfg.mode # 0 \/ h.gain[dir] = cfg.gain>>,
      <<"C20:" \o dir \o "_gain_mode", dir = "tx" \/ h.mode[dir] = ModeName[cfg.mode + 1]>>,
      <<"C20:dds_is_not_disabled", dir = "rx" \/ h.dds = Tones>>,
      <<"C20:oscillator_is_off", dir = "rx" \/ h.pd.tx = 0>> }
=============================================================================
